#!/bin/bash
# check.sh PROPERTY [-tier quick|thorough] | check.sh -replay FILE
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF_ROOT/sim" || exit 2
mkdir -p "$VERIF_ROOT/.build" "$VERIF_ROOT/evidence"
D=$(mktemp -d "$VERIF_ROOT/.build/drive-XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
go build -o "$D/drive" ./cmd/drive || exit 2
case "$1" in
-*) "$D/drive" "$@" ;;
*) P=$1; shift; "$D/drive" -prop "$P" "$@" ;;
esac
exit $?

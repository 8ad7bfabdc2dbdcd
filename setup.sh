#!/bin/bash
# Builds the simulator once so that the Go build cache is warm; every check
# builds its own copy from /repo's working tree again.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
D=$(mktemp -d "$PWD/.build/setup-XXXXXX") || exit 1
trap 'rm -rf "$D"' EXIT
(cd sim && go build -o "$D/drive" ./cmd/drive) && bash sim/build.sh "$D/b" race

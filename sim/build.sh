#!/bin/bash
# build.sh DIR [race]: instrument a copy of /repo's working tree and build the
# simulation binary DIR/h.test (and DIR/h.race).
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
SIM=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
B=$1
mkdir -p "$B/go3mf" "$B/opc"
cp -r "$SIM"/simrt "$SIM"/simsync "$SIM"/simos "$SIM"/simioutil "$SIM"/harness "$SIM"/go.mod "$B/"
cd "$REPO"
find . -name '*.go' ! -name '*_test.go' ! -path './.git/*' -exec cp --parents {} "$B/go3mf/" ';'
cp go.mod go.sum "$B/go3mf/"
OPC=$(go list -m -f '{{.Dir}}' github.com/qmuntal/opc)
cp "$OPC"/*.go "$OPC"/go.mod "$B/opc/"
chmod -R u+w "$B/opc"
rm -f "$B"/opc/*_test.go
cd "$B/go3mf"
go list -export -deps -f '{{.ImportPath}}	{{.Export}}' ./... github.com/qmuntal/opc > ../exports
cd "$SIM"
go build -o "$B/inst" ./cmd/inst
cd "$B"
./inst exports -os go3mf
./inst exports opc
cp go3mf/go.sum go.sum
echo 'replace github.com/qmuntal/opc => ./opc' >> go.mod
go test -vet=off -c -o h.test ./harness
if [ "$2" = race ]; then go test -vet=off -race -c -o h.race ./harness; fi

#!/bin/bash
# Runs demo_test.go (beside this script) inside the package named in its first line ("// pkg: path").
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
P=$(head -1 "$D/demo_test.go" | sed 's/^\/\/ pkg: *//')
T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
echo "{\"Replace\":{\"$PWD/$P/zz_demo_test.go\":\"$D/demo_test.go\"}}" > "$T/o.json"
timeout 250 go test -count=1 -overlay "$T/o.json" -run 'Test_Demo' "./$P"

#!/bin/bash
# Runs the demonstration beside this file against the working tree it is started in.
here=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s","%s":"%s"}}' "$PWD/zz_demo_lib_test.go" "$here/lib_test.go" "$PWD/zz_demo_test.go" "$here/demo_test.go" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .

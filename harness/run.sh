#!/bin/bash
# run.sh PROPERTY: the bounded leg of one property against /repo's working tree (or $REPO).
source /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
python3 - "$here" "$repo" > "$tmp/overlay.json" <<'P'
import sys,json,glob,os
here,repo=sys.argv[1:3]
print(json.dumps({"Replace":{os.path.join(repo,"zz_verif_"+os.path.basename(f)):f for f in glob.glob(here+"/*_test.go")}}))
P
export VERIF_PROP=$1
cd "$repo" && GOFLAGS= GOMEMLIMIT=20GiB go test -mod=mod -modfile="$here/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 900s -run '^TestVerif$' ${VERIF_V:+-v} .

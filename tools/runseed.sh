#!/bin/bash
# runseed.sh ID [PROP]: runs the check of the seed's property (or PROP) against a scratch copy with the patch applied.
id=$1
prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/rs.XXXX); trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/verif"
git -C /repo archive HEAD | tar -x -C "$w/repo"
cp -a /verif/. "$w/verif/"; 
(cd "$w/repo" && git init -q . && git apply "/verif/seeded/$id/patch.diff") || exit 3
s=$(date +%s)
out=$(cd "$w/verif" && REPO="$w/repo" ./check.sh "$prop" 2>&1); rc=$?
echo "$id $prop rc=$rc $(( $(date +%s)-s ))s: $(echo "$out" | grep -E 'not discharged|failing input|VIOLATION' | cut -c1-260 | head -${LINES_MAX:-6})"
[ $rc -le 1 ] || echo "$out" | tail -20

#!/bin/bash
# mkseed.sh ID: confirms seeded/ID (patch applies to HEAD, builds, stable tests pass, demo 0/nonzero).
set -u
id=$1; d=/verif/seeded/$id
cp /verif/tools/seedlib/lib_test.go /verif/tools/seedlib/demo.sh "$d/"; chmod +x "$d/demo.sh"
w=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
cp -a /repo/vendor "$w" 2>/dev/null
cd "$w"
bash "$d/demo.sh" > "$w.log" 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 "$w.log"; rm -f "$w.log"; exit 1; }
git init -q . 2>/dev/null; git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
source /opt/vp/env.sh
go build ./... || { echo "$id: does not build"; exit 1; }
if timeout 200 bash "$d/demo.sh" > "$w.log" 2>&1; then echo "$id: DEMO PASSES WITH PATCH"; exit 1; fi
go test ./... 2>&1 | grep -E "^(---|\s+---|FAIL|ok)" | sort > "$w.t1"
(cd /repo && go test ./... 2>&1 | grep -E "^(---|\s+---|FAIL|ok)" | sort > "$w.t0")
if diff <(sed 's/ (.*//; s/[0-9.]*s$//; s/(cached)//' "$w.t0") <(sed 's/ (.*//; s/[0-9.]*s$//;s/(cached)//' "$w.t1") >/dev/null; then echo "$id: ok"; else echo "$id: TESTS DIFFER"; diff "$w.t0" "$w.t1"; fi
grep -m3 -E "demo|panic" "$w.log"
rm -f "$w.log" "$w.t0" "$w.t1"

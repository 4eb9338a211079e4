#!/bin/bash
# tools/seedtest.sh ID...: confirm a planted bug (applies, builds, passes the stable tests, demo) and run its property's check
for ID in "$@"; do
S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedw-$ID; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cd "$W/repo"
bash "$S/demo.sh" >"$W/demo0.log" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; continue; }
rm -rf target/debug/.fingerprint/numopt-*
cargo test --offline --workspace --features ipopt -q >"$W/test.log" 2>&1; t=$?
cargo check --offline --workspace --all-targets -q >"$W/check.log" 2>&1; c=$?
bash "$S/demo.sh" >"$W/demo1.log" 2>&1; d1=$?
cd /verif; python3 ./check $P --tier quick --repo "$W/repo" >"$W/chk.log" 2>&1; k=$?
echo "$ID $P: demo-clean=$d0 check=$c test=$t demo-bug=$d1 CHECK=$k $(grep -m1 VIOLATION "$W/chk.log") | $(tail -1 "$W/demo1.log" | cut -c1-150)"
cp "$W/chk.log" /tmp/v/seed-$ID.chk; cp "$W/test.log" /tmp/v/seed-$ID.test
rm -rf "$W"
done

#!/bin/bash
# plant.sh ID [CHECKS..]: confirm /verif/seeded/ID in a scratch copy (builds, the
# stable tests pass, the demo tells the trees apart), then run the checks on it.
ID=$1; shift
S=/verif/seeded/$ID
C=/tmp/plant/repo
if [ ! -d $C ]; then mkdir -p /tmp/plant; cp -a /repo $C; fi
cd $C && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
git apply --check $S/patch.diff || exit 1
if [ -z "$SKIP" ]; then
bash $S/demo.sh >/tmp/plant/clean.log 2>&1 || { echo "demo fails on the clean tree"; tail -5 /tmp/plant/clean.log; exit 1; }
git apply $S/patch.diff
bash $S/demo.sh >/tmp/plant/bad.log 2>&1; rc=$?
[ $rc = 0 ] && { echo "demo passes with the patch"; exit 1; }
echo "demo with the patch: rc=$rc $(tail -2 /tmp/plant/bad.log | cut -c1-200)"
. /opt/vp/env.sh; cd $C
cargo test --workspace --offline >/tmp/plant/test.log 2>&1
rc=$?
echo "tests: rc=$rc $(grep -c '\.\.\. ok$' /tmp/plant/test.log) ok, $(grep -c '\.\.\. FAILED$' /tmp/plant/test.log) failed"
if [ $rc != 0 ]; then grep -E 'FAILED|^error' -A5 /tmp/plant/test.log | head -20; exit 1; fi
fi
cd ${R:-/tmp/dev/repo} && git apply $S/patch.diff
for c in "$@"; do
  s=$SECONDS
  timeout 900 bash ${V:-/tmp/dev/verif}/run.sh check $c quick >/tmp/plant/$c.log 2>&1
  rc=$?
  echo "$ID: $c rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/plant/$c.log)"; grep -m1 -A1 VIOLATION /tmp/plant/$c.log | tail -1 | cut -c1-150
done
git -C ${R:-/tmp/dev/repo} checkout -q -- .

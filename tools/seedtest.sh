#!/bin/bash
# seedtest.sh <seed dir name> [nocheck]: confirms a planted bug in /repo's working tree (undone afterwards) and runs its check.
set -u
D=/verif/seeded/$1
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
T=$(mktemp -d)
cp -a "$D/." "$T/"; rm -f "$T"/*.diff "$T"/meta.json
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "BASE BUILD FAILS"; exit 2; }
timeout 300 bash "$T/demo.sh" >/tmp/seed_demo0.log 2>&1; echo "demo unchanged: $?"
git -C /repo apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed_build.log; exit 2; }
bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_tests.json'))
print("stable tests lost:", sorted(set(b['stable'])-set(t['passed']))[:10], len(b['stable']))
P
timeout 300 bash "$T/demo.sh" >/tmp/seed_demo1.log 2>&1; echo "demo patched: $?"
rm -rf "$T"
if [ "${2:-}" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P > /tmp/seed_check.log 2>&1; echo "check $P: $?"; grep -E "VIOLATION|UNDISCH|NOT-IN|obligations" /tmp/seed_check.log | cut -c1-220 | head -12; [ -f replays/$P.txt ] && grep -m2 -E "FAIL:|ERROR: Addr|runtime error" replays/$P.txt
fi

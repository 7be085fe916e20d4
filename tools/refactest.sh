#!/bin/bash
# tools/refactest.sh NAME...: builds and tests a behaviour-preserving edit in a private mount namespace and runs the checks it concerns
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
W=/var/tmp/ref-$ID; rm -rf "$W"; mkdir -p "$W/tmp"; cp -a /repo "$W/repo"; cp -a "$V" "$W/verif"; rm -rf "$W/verif/.git" "$W/verif/seeded"
export ID V W
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/tmp /tmp; 
cd /repo; git apply $V/tools/refactors/$ID.diff || { echo "$ID: does not apply"; exit; }
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("'$W'/out.json"))
print("'$ID'", "tests missing: %s" % [x for x in (b.get("stable") or b.get("passed")) if x not in set(o["passed"])])
P
for p in $(cat $V/tools/refactors/$ID.checks); do
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $W/verif/checks/run.py $p > $W/check.log 2>&1; c=$?
echo "$ID $p: exit=$c $(grep -c ^VIOLATION $W/check.log) violations; $(tail -1 $W/check.log) inconclusive=$(python3 -c "import json;print(json.load(open(\"$W/verif/evidence/$p.json\"))[\"coverage\"].get(\"inconclusive_count\"))")"
done'
rm -rf "$W"
done

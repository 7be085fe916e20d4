#!/bin/bash
# tools/seedtest.sh [-n] ID...   (-n: skip the test suite)
# Confirms planted bugs in private mount namespaces (copy of /repo over /repo, private /tmp).
NOTEST=; [ "$1" = -n ] && { NOTEST=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
W=/var/tmp/seed-$ID; rm -rf "$W"; mkdir -p "$W/tmp"; cp -a /repo "$W/repo"
export ID V W NOTEST
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/tmp /tmp
cp -a $V/seeded/$ID /tmp/demo
cd /repo
bash /opt/vp/build.sh > $W/base.log 2>&1; bash /tmp/demo/demo.sh > $W/demo0.log 2>&1; d0=$?
git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1; t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("'$W'/out.json"))
l=[x for x in (b.get("stable") or b.get("passed") or b)]
print("tests missing: %s" % [x for x in l if x not in set(o["passed"])])
P
); else bash /opt/vp/build.sh > $W/test.log 2>&1; t="tests skipped"; fi
bash /tmp/demo/demo.sh > $W/demo1.log 2>&1; d1=$?
p=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$ID/meta.json\"))[\"property\"])")
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $V/checks/run.py $p > $W/check.log 2>&1; c=$?
echo "$ID $p: demo base=$d0 patched=$d1; $t; check exit=$c $(grep -c ^VIOLATION $W/check.log) violations; $(tail -1 $W/check.log)"
'
cp "$W"/check.log /tmp/seed-$ID.check.log 2>/dev/null; tail -3 "$W"/demo1.log > /tmp/seed-$ID.demo.log
rm -rf "$W"
done

#!/bin/bash
# tools/plant.sh ID [notest|testonly]: confirm /verif/seeded/ID in a scratch copy of /repo (bind-mounted over /repo in a private mount
# namespace): demo passes before, patch applies, builds, stable tests pass, demo fails; then runs the property's check against it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant-$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "/tmp/plant-$ID"; mkdir -p $W
cp -a /repo $W/repo; cp -a /verif $W/verif; cp -a $S $W/seed
export W P ID MODE=$2
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo "$ID BASE BUILD FAILED"; exit 1; }
timeout 300 bash $W/seed/demo.sh > $W/d0.log 2>&1; echo "$ID demo unchanged: exit $? (want 0)"; tail -1 $W/d0.log
git apply $W/seed/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
T0=$SECONDS; bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "$ID BUILD FAILED"; tail -20 $W/b1.log; exit 1; }
echo "$ID build $((SECONDS-T0))s"
timeout 300 bash $W/seed/demo.sh > $W/d1.log 2>&1; echo "$ID demo with patch: exit $? (want nonzero)"; tail -1 $W/d1.log
if [ "$MODE" != notest ]; then
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); s=set(b.get("stable") or b.get("passed") or b.get("tests") or [])
t=set(json.load(open("$W/t.json"))["passed"]); print("$ID tests: %d stable, missing %s"%(len(s),sorted(s-t)[:5]))
PY
fi
[ "$MODE" = testonly ] && exit 0
cd /verif; rm -f /verif/build/.lock
VERIF_SEED=1 VERIF_TIER=quick bin/check $P > $W/c.log 2>&1; echo "$ID check $P: exit $? (want 1)"; grep -E "VIOLATION|$P \[" $W/c.log | cut -c1-300; grep "$P:" $W/c.log
'
rm -rf "/tmp/plant-$ID"

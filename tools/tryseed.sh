#!/bin/bash
# tryseed.sh <seed-id> [nocheck]: confirm a seeded change (builds, tests pass, demo distinguishes) and run its check.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
timeout 300 bash $S/demo.sh >/tmp/ts.demo0 2>&1; d0=$?
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
fails=$(python3 - <<PY
import json
base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open('/tmp/ts.json'))
def names(d,k):
    v=d.get(k,[]); return set(v if isinstance(v,list) else v.keys())
b=names(base,'stable') or names(base,'passed') or names(base,'tests')
p=names(res,'passed')
print(sorted(b-p))
PY
)
timeout 300 bash $S/demo.sh >/tmp/ts.demo1 2>&1; d1=$?
if [ "$2" != nocheck ]; then (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $P >/tmp/ts.check 2>&1); k=$?; else k=-; fi
git checkout -q -- .
echo "$1 property=$P build=$b testfails=$fails demo_base=$d0 demo_patched=$d1 check=$k $(grep -c VIOLATION /tmp/ts.check)"

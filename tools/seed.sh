#!/bin/bash
# seed.sh ID [check]: validates seeded/ID on a scratch copy of /repo and runs the property's check against it.
ID=$1; V=/verif; S=/tmp/sr.$ID
find /tmp -maxdepth 1 -name "sr.$ID" -exec rm -rf {} +
cp -a /repo $S || exit 9
cat > /tmp/sr.$ID.sh <<X
mount --bind $S /repo
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh > /tmp/sr.$ID.log 2>&1 || { echo "$ID: base build failed"; exit 1; }
bash $V/seeded/$ID/demo.sh > /tmp/sr.$ID.d0 2>&1; echo "$ID demo clean: \$?"
git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ "$2" != check ]; then
bash /opt/vp/build.sh >> /tmp/sr.$ID.log 2>&1 || { echo "$ID: does not build"; tail -5 /tmp/sr.$ID.log; exit 1; }
bash /opt/vp/test.sh /tmp/sr.$ID.json >> /tmp/sr.$ID.log 2>&1
python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sr.$ID.json'))
def names(x): return {t if isinstance(t,str) else t.get('id') or t.get('name') for t in x}
st=b.get('stable') or b.get('passed') or b.get('tests') or b
miss=sorted(names(st)-names(o['passed']))
print('$ID stable tests failing:',len(miss),miss[:5])
Y
bash $V/seeded/$ID/demo.sh > /tmp/sr.$ID.d1 2>&1; echo "$ID demo patched: \$?"
fi
P=\$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$P --tier quick > /tmp/sr.$ID.chk 2>&1; echo "$ID check \$P: exit \$? \$(grep -m1 VIOLATION /tmp/sr.$ID.chk)"
X
unshare -m bash /tmp/sr.$ID.sh
find /tmp -maxdepth 1 -name "sr.$ID" -exec rm -rf {} +

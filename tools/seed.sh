#!/bin/bash
# validate one planted bug in a private mount namespace: seed.sh ID [notest]
# (copies /repo to /tmp/seed/ID, binds the copy over /repo inside the namespace)
id=$1; V=${V:-/verif}; S=$V/seeded/$id; W=/tmp/seed/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W/demo; cp -a /repo $W/repo; cp -r $S/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
git -C $W/repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf /tmp/seed/$id; exit 1; }
( cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "demo-clean=$?" >$W/res )
unshare -Urm bash -c "
mount --bind $W/repo /repo; mkdir -p $W/b; 
cd /repo; bash /opt/vp/build.sh >$W/build.log 2>&1; echo build=\$? >>$W/res
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo demo-patched=\$? >>$W/res
if [ '$2' != notest ]; then bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1; python3 - <<P >>$W/res
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
m=sorted(b-set(o['passed'])); print('missing=%d'%len(m), m[:4])
P
fi
cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/main.py $prop quick >$W/check.log 2>&1; echo check=\$? >>$W/res
grep -a ^VIOLATION $W/check.log | head -2 >>$W/res
"
echo "$id ($prop): $(tr '\n' ' ' <$W/res)"; tail -3 $W/demo1.log | cut -c1-200
cp $W/check.log /tmp/seed/$id.check.log; cp $W/build.log /tmp/seed/$id.build.log
rm -rf /tmp/seed/$id

#!/bin/bash
# plant.sh ID [nocheck]: confirm a planted bug (patch applies, builds, stable tests pass,
# demo passes clean / fails patched) and run the property's quick check against it.
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash $d/demo.sh >/tmp/demo.$id.clean 2>&1); c=$?
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/test.sh /tmp/t.$id.json >/tmp/t.$id.log 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.$id.json'))
k=b.get('stable') or b.get('passed') or b.get('tests')
m=[x for x in k if x not in r['passed']]
print('tests-ok' if not m else 'TESTS-FAIL '+str(m)[:300])")
(cd /repo && bash $d/demo.sh >/tmp/demo.$id.patched 2>&1); p=$?
echo "$id prop=$prop demo clean=$c patched=$p $t"
[ "$2" = nocheck ] || (cd /verif && python3 run.py $prop --tier quick 2>&1 | grep -v "^  " | cut -c1-200 | tail -4)

#!/bin/bash
# seedtry.sh ID [nocheck]: /repo has the change applied in its working tree. Save it as seeded/ID/patch.diff, test everything, undo.
id=$1; d=/verif/seeded/$id; [ -d $d ] || { echo "no $d"; exit 1; }
cd /repo
git diff > /tmp/p.diff
if [ -s /tmp/p.diff ]; then cp /tmp/p.diff $d/patch.diff; git checkout -q -- .; fi
[ -s $d/patch.diff ] || { echo no patch; exit 1; }
rm -rf /tmp/sd; mkdir /tmp/sd; cp $d/* /tmp/sd/; rm -f /tmp/sd/patch.diff /tmp/sd/meta.json
echo "== clean demo"; bash /tmp/sd/demo.sh; echo "rc=$? (want 0)"
git apply $d/patch.diff || exit 1
echo "== seeded demo"; bash /tmp/sd/demo.sh 2>&1 | tail -3; echo "rc=${PIPESTATUS[0]} (want non-0)"
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/t.json'))['passed'])
print('tests failing:', sorted(b-p) or 'none')
P
if [ "$2" != nocheck ]; then prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); echo "== check $prop"; bash /verif/run.sh $prop 2>&1 | tail -4 | cut -c1-300; fi
git checkout -q -- .; git status --short

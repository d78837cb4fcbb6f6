#!/bin/bash
# tryplant.sh ID...: builds, tests, demonstrates and checks planted bugs on /repo, undoing each.
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/tp.log 2>&1; bash $d/demo.sh > /tmp/tp.demo 2>&1; clean=$?
  [ $clean = 0 ] || tail -5 /tmp/tp.demo
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/tp.log 2>&1 || { b=FAIL; grep -m3 ^error -A4 /tmp/tp.log; }
  bash /opt/vp/test.sh /tmp/tp.json >/tmp/tp.log 2>&1
  t=$(python3 - <<'P'
import json
a=json.load(open('/tmp/tp.json')); b=json.load(open('/opt/vp/BASELINE.json'))
ps=set(a.get('passed',[])) ; st=b.get('stable') or b.get('passed') or b.get('tests')
print('ok' if set(st)<=ps else 'FAIL '+str(sorted(set(st)-ps))[:300])
P
)
  bash $d/demo.sh > /tmp/tp.demo 2>&1; bad=$?
  (cd /verif && python3 check.py $prop > /tmp/tp.check 2>&1); c=$?
  git checkout -q -- .
  echo "$id $prop build=$b tests=$t demo-clean=$clean demo-patched=$bad check=$c"; [ $c = 1 ] || head -c 600 /tmp/tp.check
  [ $c = 1 ] && head -c 300 /tmp/tp.check
done
bash /opt/vp/build.sh >/tmp/tp.log 2>&1

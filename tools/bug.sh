#!/bin/bash
# tools/bug.sh ID...: apply each planted bug to /repo, confirm it, run its property's check (CHECKS="C01 .." for others), undo
cd /verif
for id in "$@"; do
  d=seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash /verif/$d/demo.sh >/tmp/bug.base 2>&1); b=$?
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
  t=$(python3 -c "
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/bug.json'))
base=a.get('passed') or a.get('stable') or a
print(len([x for x in base if x not in b['passed']]))")
  (cd /repo; timeout 300 bash /verif/$d/demo.sh >/tmp/bug.demo 2>&1); m=$?
  echo "$id: demo base=$b bug=$m tests-failing=$t"
  for p in ${CHECKS:-$prop}; do
    s=$(date +%s); python3 check.py $p >/tmp/bug.out 2>/dev/null; r=$?
    echo "   $p exit=$r $(grep VIOLATION /tmp/bug.out) ($(( $(date +%s)-s )) s)  $(grep -c FAILED /tmp/bug.out) failed; $(grep -m1 FAIL evidence/replay_$p.txt | grep -v obligation | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1

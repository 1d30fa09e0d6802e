#!/bin/bash
# apply each planted change to /repo, run the check of its property, undo it; prints id, exit code, first line of output that matters
cd /verif
for id in ${@:-$(ls seeded)}; do
  [ -f seeded/$id/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -f checks/$(echo $p | tr P p).py ] || { echo "$id $p NO-CHECK"; continue; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  timeout 900 bin/check $p quick > /tmp/seed.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed.$id.log | cut -c1-150)"
done

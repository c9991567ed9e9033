#!/bin/bash
# Applies every planted bug in turn (or those named) and reports what its check says.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  o=$(timeout 900 python3 check.py $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$rc $(echo "$o" | grep VIOLATION | head -2 | tr '\n' ' ')"
done

#!/bin/bash
# seedcheck.sh [id...]: runs the quick check of each planted bug's property on a tree with the bug.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); o=$(timeout 900 python3 run.py check $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 '^VIOLATION' | cut -c1-120)"
done

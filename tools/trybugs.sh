#!/bin/bash
# trybugs.sh [ID...]: which planted bugs does the check of their property catch?  Leaves /repo as it was.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  bin/check.py "$p" > "/tmp/try-$id.log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION -B1 /tmp/try-$id.log | head -1 | cut -c1-220)"
done

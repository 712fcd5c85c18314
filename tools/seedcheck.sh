#!/bin/bash
# Runs, for each seeded change named (default: all), the check of its property with the change applied to /repo.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/w/seed/$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 ^VIOLATION /tmp/w/seed/$id.log)"
done

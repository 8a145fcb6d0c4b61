#!/bin/bash
# runseeds.sh [id...]: run each planted bug's own check against it (applies the patch to /repo and undoes it)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 python3 check.py $p > /tmp/seed-$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep -h VIOLATION /tmp/seed-$d.log)"
done

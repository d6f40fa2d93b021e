#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs its property's check (all claimed checks with ALL=1), undoes it
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $q > /tmp/catch_$id.$q.txt 2>&1; rc=$?
    echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/catch_$id.$q.txt)"
  done
  git -C /repo checkout -q -- .
done

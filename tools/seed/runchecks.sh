#!/bin/bash
# Applies each seeded bug to /repo, runs its property's quick check, undoes it.
cd /verif
for d in seeded/${1:-}*/; do
  id=$(basename $d); p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $p > /tmp/rc.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "VIOLATION property=$p" /tmp/rc.$id.log)
  echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s $([ $rc = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED)"
done

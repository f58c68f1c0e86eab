#!/bin/bash
# catch.sh [bug ids...]: applies each planted bug to /repo in turn, runs its property's check, undoes it, prints the outcome
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
  s=$(date +%s); out=$(./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out"|grep -m1 VIOLATION)"
done

#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run its property's check, undo.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "NOAPPLY $s"; continue; }
  ./check.py $p quick > /tmp/seedout.txt 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" /tmp/seedout.txt; then echo "CAUGHT $s $p"; else echo "MISSED $s $p rc=$rc"; tail -5 /tmp/seedout.txt; fi
done

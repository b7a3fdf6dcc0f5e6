#!/bin/bash
# run the checks against every planted change (on /repo, undone straight afterwards)
cd /verif
for d in ${*:-seeded/*}; do
  [ -f $d/patch.diff ] || continue
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d: DOES NOT APPLY"; continue; }
  PBSA_EVIDENCE=/tmp/ev timeout 900 python3-vt -m pbsa.check $p > /tmp/rs.out 2>&1; rc=$?
  git -C /repo apply -R $PWD/$d/patch.diff || echo "UNDO FAILED"
  echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/rs.out) $(grep '^C..:' /tmp/rs.out | cut -d'(' -f2)"
done

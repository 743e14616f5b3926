#!/bin/bash
# dev tool: seedcheck.sh ID... — applies each planted bug to /repo, runs its property's check, undoes it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: APPLY FAILS"; continue; }
  (cd /verif && timeout 900 python3 check.py $p > /tmp/seedcheck.$id.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): exit $r; $(grep -c '^  \[' /tmp/seedcheck.$id.log) violations; $(grep -m1 '^  \[' /tmp/seedcheck.$id.log | cut -c1-200)"
done

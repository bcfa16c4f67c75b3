#!/bin/bash
# developer tool: run the check of each seeded change's property against it (all, or the named ones)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  grep -q "\"$p\"" checks.json || { echo "$d $p: no check"; continue; }
  git -C /repo apply /verif/seeded/$d/patch.diff || continue
  s=$(date +%s)
  python3 check.py $p > /tmp/try.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep VIOLATION /tmp/try.log | head -1 | cut -c1-120)"
  grep -m1 "  .*|" /tmp/try.log | cut -c1-220
done

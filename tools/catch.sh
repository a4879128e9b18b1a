#!/bin/bash
# catch.sh ID... : applies a seeded bug to /repo, runs the quick check of its property, undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  o=$("$V/check.sh" $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep -m1 -E 'VIOLATION|INCOMPLETE|UNCONF' | cut -c1-160)"
done

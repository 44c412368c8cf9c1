#!/bin/bash
# caught.sh [ID...]: runs the check of each planted bug's property against the bug (development tool).
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(timeout 900 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done

#!/bin/bash
# catch.sh ID…: applies each planted change to /repo, runs its property's quick check, undoes it.
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s)
  o=$(timeout 900 python3 check.py $p --tier quick 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 -E '^VIOLATION|BUILD|trouble|TROUBLE' )"
  [ $r = 1 ] || echo "$o" | tail -5
done

#!/bin/bash
# quiet.sh NAME… [-- PROP…]: applies each refactoring (tools/refactors/NAME.diff) to /repo, runs the quick
# checks (all, or those named), undoes it.  Every check has to stay quiet.
cd /verif
props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24"
names=()
while [ $# -gt 0 ]; do
  if [ "$1" = -- ]; then shift; props="$*"; break; fi
  names+=("$1"); shift
done
for n in "${names[@]}"; do
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
  git -C /repo apply /verif/tools/refactors/$n.diff || continue
  for p in $props; do
    s=$(date +%s)
    o=$(timeout 900 python3 check.py $p --tier quick 2>&1); r=$?
    echo "$n $p rc=$r $(( $(date +%s)-s ))s"
    [ $r = 0 ] || echo "$o" | grep -E 'VIOL|TROUBLE|  ' | head -20
  done
  git -C /repo checkout -q -- .
done

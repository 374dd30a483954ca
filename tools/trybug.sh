#!/bin/bash
# trybug.sh SEED...: runs the check of each planted bug's property on the patched tree, and undoes it
for s in "$@"; do
  d=/verif/seeded/$s
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  t0=$(date +%s)
  out=$(cd /verif && python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s: $(echo "$out" | grep -E '^(VIOLATION|failing input)' | tail -2 | tr '\n' ' ' | cut -c1-300)"
done

#!/bin/bash
# runbugs.sh [ids...]: runs each planted bug's own check against /repo with the bug applied.
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 timeout 900 ./check.sh $p quick > /tmp/rb.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  [ $rc = 1 ] && echo "$b $(grep -m1 -oE "^C[0-9]+_[A-Za-z]+: .*" /tmp/rb.out | cut -c1-150)" >> /tmp/rb.caught
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/rb.out) $(grep -c -i 'inconcl\|REDUCED' /tmp/rb.out)"
done

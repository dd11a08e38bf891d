#!/bin/bash
# Development aid: run a property's quick check against planted bugs (all, or those named), applying and undoing each in /repo.
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  python3 run.py $p quick > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/try.out; then r=caught; else r="MISSED (rc $rc)"; fi
  echo "$i $p $r $(( $(date +%s) - s ))s $(grep -m1 'key={' /tmp/try.out)"
done

#!/bin/bash
# usage: catch.sh ID...   apply each planted bug, run its property's quick check, undo
for b in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b APPLYFAIL"; continue; }
 s=$(date +%s)
 o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick 2>&1); r=$?
 git -C /repo checkout -- .
 echo "$b $p rc=$r $(( $(date +%s)-s ))s :: $(echo "$o"|grep -m2 VIOLATION|tr '\n' ' ')"
done

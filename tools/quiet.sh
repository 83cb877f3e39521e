#!/bin/bash
# usage: quiet.sh ID...   apply each behaviour-preserving edit, run the quick checks it touches, undo
for b in "$@"; do
 for p in $(cat /verif/refactors/$b.props); do
 git -C /repo apply /verif/refactors/$b.diff || { echo "$b APPLYFAIL"; continue; }
 s=$(date +%s)
 o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick 2>&1); r=$?
 git -C /repo checkout -- . ; git -C /repo clean -qfd matchit rapiddlt ripdlt dd_dlt 2>/dev/null
 echo "$b $p rc=$r $(( $(date +%s)-s ))s :: $(echo "$o"|grep -E "VIOLATION|undecided|failed|lost"|head -3|cut -c1-260|tr '\n' ' ')"
 done
done

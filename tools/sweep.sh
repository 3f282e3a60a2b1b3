#!/bin/bash
# tools/sweep.sh "C05 C06" "1 2 3" [tier] -- run checks over seeds in parallel, print only what is not quiet
# evidence files are rewritten by the runs; only the exit status and VIOLATION lines matter here
tier=${3:-quick}
for c in $1; do for s in $2; do echo "$c $s"; done; done | xargs -P 6 -L 1 bash -c '
 out=$(VERIF_SEED=$1 VERIF_TIER='$tier' VP_EVIDENCE=/tmp/vp-sweep-$0-$1 python3 /verif/run.py $0 2>&1); rc=$?
 if [ $rc != 0 ] || echo "$out" | grep -q VIOLATION; then echo "== $0 seed $1 rc=$rc"; echo "$out" | cut -c1-700; else echo "$0 $1 ok $(echo "$out" | tail -1 | cut -c1-90)"; fi'

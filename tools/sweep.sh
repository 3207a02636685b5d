#!/bin/bash
# usage: sweep.sh "P01 P02" "1 2 3" [tier]: run checks over several seeds in parallel, report those not quiet
cd "$(dirname "$0")/.."
for s in $2; do for p in $1; do echo "$p $s"; done; done | xargs -P 7 -L 1 bash -c 'out=$(VERIF_SEED=$1 bash check.sh $0 '"${3:-quick}"' 2>&1); r=$?; echo "$out" | tail -1; [ $r = 0 ] || { echo "=== FAIL $0 seed $1"; echo "$out" | tail -8; }'

#!/bin/bash
# sweep.sh TIER SEEDS... -- PROPS...: runs checks over seeds, prints what is not quiet
tier=$1; shift
seeds=(); while [ "$1" != "--" ]; do seeds+=($1); shift; done; shift
for p in "$@"; do for s in "${seeds[@]}"; do
  out=$(VERIF_TIER=$tier VERIF_SEED=$s ./check $p 2>&1); rc=$?
  if [ $rc != 0 ] || grep -q "VIOLATION\|did not repeat" <<<"$out"; then echo "== $p seed $s rc $rc"; head -c 3000 <<<"$out"; else tail -1 <<<"$out"; fi
done; done

#!/bin/bash
# t_all.sh TIER SEED IDS...   runs checks one after another, one line each
cd "$(dirname "$0")/.."
t=$1 s=$2; shift 2
for i in "$@"; do
  st=$(date +%s)
  out=$(VERIF_TIER=$t VERIF_SEED=$s ./run.sh $i 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s)-st ))s $(echo "$out" | grep -m1 evaluations)"
  [ $rc = 0 ] || echo "$out" | head -40 | cut -c1-1500
done

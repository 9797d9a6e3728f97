#!/bin/bash
# soak.sh DIR FIRST LAST CHECK...: runs checks with many seeds, from a copy of the committed work and of /repo
d=$1; a=$2; z=$3; shift 3
mkdir -p $d && git clone -q /verif $d/verif && git clone -q /repo $d/repo || exit 1
for s in $(seq $a $z); do
  for c in "$@"; do
    VERIF_REPO=$d/repo VERIF_SEED=$s timeout 900 python3 $d/verif/run.py $c > $d/out 2>&1
    r=$?
    echo "$s $c $r" >> $d/log
    if [ $r != 0 ]; then cp $d/out $d/fail.$s.$c; cp $d/verif/build/replay/$c-0.json $d/fail.$s.$c.json 2>/dev/null; fi
  done
done
echo finished >> $d/log

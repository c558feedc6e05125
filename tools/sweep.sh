#!/bin/bash
# runs every check (or those named) on /repo with several seeds, one after another
cd "$(dirname "$0")/.."
seeds=$1; shift
for s in $seeds; do for p in ${@:-$(seq -f C%02g 1 24)}; do
O=$(mktemp /tmp/sweep.run.XXXXXX); t=$(date +%s.%N)
VERIF_SEED=$s VERIF_TIER=${TIER:-quick} timeout 900 nice -n ${NICE:-0} python3 check.py --prop $p > $O 2>&1; rc=$?
echo "$s $p rc=$rc $(echo "$(date +%s.%N)-$t" | bc | cut -c1-5) $(grep -c VIOLATION $O)"
[ $rc = 0 ] || cp $O /tmp/sweep.fail.$s.$p
rm -f $O
done; done

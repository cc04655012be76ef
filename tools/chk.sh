#!/bin/bash
# run several checks in parallel, short report: tools/chk.sh N01 N02 ... (TIER=quick)
cd "$(dirname "$0")/.."
for p in "$@"; do
 ( s=$(date +%s); python3 run_check.py $p --tier ${TIER:-quick} > /tmp/chk_$p.log 2>&1; rc=$?; e=$(date +%s)
   echo "== $p rc=$rc $((e-s))s"; cut -c1-${W:-700} /tmp/chk_$p.log | tail -${L:-7} ) &
done; wait

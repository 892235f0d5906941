#!/bin/bash
# run every check; print exit codes and times
cd "$(dirname "$0")/.."
for i in $(seq -w 1 23); do
  s=$(date +%s); bash run.sh C$i > /tmp/all_C$i.log 2>&1; rc=$?; e=$(date +%s)
  echo "C$i rc=$rc $((e-s))s $(grep -c KNOWN /tmp/all_C$i.log) known $(grep VIOL /tmp/all_C$i.log | head -1)"
done

#!/bin/bash
# all.sh [args]: every check, one line each
cd "$(dirname "$0")/.."
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20; do
  t=$SECONDS; o=$(python3 check.py C$i "$@" 2>&1); rc=$?
  echo "C$i rc=$rc $((SECONDS-t))s $(echo "$o" | grep -a -E '^violated|VIOLATION|NO-ANSWER|HARNESS' | head -3 | cut -c1-250)"
done

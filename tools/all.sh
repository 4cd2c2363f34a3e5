#!/bin/bash
# run every check (or the given ones) and print one line each
cd "$(dirname "$0")/.."
for i in ${@:-$(ls specs | sed -n 's/^c\([0-9]*\).py$/C\1/p')}; do
  o=$(timeout 900 python3 check.py $i 2>&1); r=$?
  echo "$r $(echo "$o" | head -1)"; [ $r -ne 0 ] && echo "$o" | tail -n +2 | head -3
done

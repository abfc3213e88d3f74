#!/bin/bash
# t.sh HARNESS... : tries harnesses, short output
cd /verif
for h in "$@"; do
  echo "== $h"
  s=$(date +%s)
  timeout ${T:-600} python3 check.py try $h $O > /tmp/t.out 2>&1
  if grep -q "could not compile" /tmp/t.out; then grep -A12 "^error" /tmp/t.out | head -${N:-60}; exit 1; fi
  grep -v "^$" /tmp/t.out | tail -${L:-10} | cut -c1-600
  echo "-- $(( $(date +%s) - s )) s"
done

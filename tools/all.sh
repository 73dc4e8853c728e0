#!/bin/bash
# Runs every check; one line each.
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c 'import props; print(*sorted(props.PROPS))')}; do
  timeout 1500 python3 run.py $p > /tmp/all.$p.log 2>&1; echo "$? $(grep -c VIOLATION /tmp/all.$p.log) $(grep -c UNCONF /tmp/all.$p.log) $(grep -o 'UNREACHED.*' /tmp/all.$p.log) $(tail -1 /tmp/all.$p.log)"
done

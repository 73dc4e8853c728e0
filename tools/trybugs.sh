#!/bin/bash
# trybugs.sh ID...: runs each seeded bug's own check against /repo with the bug applied; results go to tools/caught.txt.
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$s/patch.diff || continue
  o=$(timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $s $p rc=$rc $(echo "$o" | tail -1)"; echo "$o" | grep -A1 -m1 VIOLATION | cut -c1-300
  sed -i "/^$s /d" tools/caught.txt 2>/dev/null; echo "$s $p $rc" >> tools/caught.txt
done
sort -o tools/caught.txt tools/caught.txt

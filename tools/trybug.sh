#!/bin/bash
# usage: tools/trybug.sh ID... : applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(echo "$out" | grep VIOLATION | head -3 | cut -c1-200 | tr '\n' '|')"
done

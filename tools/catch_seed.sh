#!/bin/bash
# catch_seed.sh <id>...: applies each planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply $d/patch.diff || continue
  s=$(date +%s)
  bash /verif/check.sh ${P:-$p} >/tmp/catch.out 2>/tmp/catch.err; rc=$?
  git -C /repo checkout -q -- .
  echo "$id (${P:-$p}): rc=$rc $(grep -c ^VIOLATION /tmp/catch.out) violation(s) in $(($(date +%s)-s)) s: $(grep -h '^---' /tmp/catch.out | head -2 | cut -c1-200)"
done

#!/bin/bash
# usage: runseeds.sh [ID ...]: apply each planted bug to /repo, run its check (quick), undo. Only when /repo is clean.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  timeout 900 ./check.sh $p quick > /tmp/seed-$d.out 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/seed-$d.out)
  echo "$d $p rc=$rc violations=$v $(( $(date +%s)-s ))s $([ $rc = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED)"
done

#!/bin/bash
# usage: tryseeds.sh [ID ...]: like runseeds.sh, but in a scratch copy of $VERIF_REPO (default /repo), with this copy of the checks (development only)
cd "$(dirname "$0")/.."
src=${VERIF_REPO:-/repo}; t=$(mktemp -d /tmp/tryseed-XXXXXX); trap 'rm -rf "$t"' EXIT
for d in ${@:-$(ls seeded)}; do
  p=${P:-$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")}
  rm -rf "$t/repo"; git clone -q "$src" "$t/repo"
  git -C "$t/repo" apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  mkdir -p evidence
  VERIF_REPO=$t/repo PYTHONPATH=$t/repo:$PWD PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python -W ignore -m mc.run $p --tier quick > /tmp/seed-$d.out 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$p " /tmp/seed-$d.out)
  echo "$d $p rc=$rc violations=$v $(( $(date +%s)-s ))s $([ $rc = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED)"
done

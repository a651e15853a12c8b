#!/bin/bash
# usage: check.sh ID [quick|thorough]   -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
unset PYTHONHOME
export PYTHONPATH=/repo:"$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONUTF8=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/parce-verif-pycache
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore -m mc.run "$1" --tier "${2:-${VERIF_TIER:-quick}}"

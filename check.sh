#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      (run in /verif; imports the code from /repo's working tree)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_SEED:-1}" LC_ALL=C.UTF-8 PYTHONPATH= PYTHONUTF8=1
PY=/opt/venv/bin/python
exec "$PY" -B -W ignore -m mc check "$1" "${2:-${VERIF_TIER:-quick}}"

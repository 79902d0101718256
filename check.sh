#!/bin/sh
# usage: check.sh <property id>   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
[ -n "$2" ] && export VERIF_TIER="$2"
PY=/opt/venv/bin/python
exec "$PY" harness/run.py "$1"

#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] - one property check against /repo
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export LC_ALL=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python run.py "$1" "${@:3}"

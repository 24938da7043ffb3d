#!/bin/sh
# check.sh <property> [quick|thorough] : exit 0 held, 1 violated (VIOLATION line), 2 no answer
cd "$(dirname "$0")" || exit 2
VERIF_TIER=${2:-${VERIF_TIER:-quick}}; export VERIF_TIER
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0; export PYTHONDONTWRITEBYTECODE PYTHONHASHSEED
exec /opt/vp/venv/bin/python -s harness/vrun.py "$1" --tier "$VERIF_TIER" --jobs "${VERIF_JOBS:-8}"

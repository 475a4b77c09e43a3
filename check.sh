#!/bin/bash
# check.sh PROPERTY [quick|thorough]   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
if [ "$1" = "--replay" ]; then
  exec /opt/venv/bin/python symex/run.py --replay "$2"
fi
exec /opt/venv/bin/python symex/run.py --property "$1" --tier "${2:-quick}"

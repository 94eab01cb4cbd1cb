#!/bin/bash
# run_check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vsym.run "$1" --tier "${2:-quick}" "${@:3}"

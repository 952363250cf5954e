#!/bin/bash
# check.sh <property> [quick|thorough]   -- decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
if [ -n "$2" ]; then export VERIF_TIER="$2"; fi
exec /opt/venv/bin/python -W ignore -m mc "$1"

#!/bin/sh
# check.sh ID quick|thorough
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3 analyser/run.py "$@"

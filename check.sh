#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")"
f=$(bash bin/dump.sh) || { echo "extraction of /repo's program failed"; exit 2; }
export MIRDUMP_FILE="$f"
export PYTHONHASHSEED=0
exec python3 sa/run.py "$1" "${2:-quick}"

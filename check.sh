#!/bin/sh
# check.sh <property> [quick|thorough]: runs the check of one property from /verif
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr 'A-Z' 'a-z')
PYTHONHASHSEED=${VERIF_SEED:-1} exec /opt/venv/bin/python -B "harness/$id.py" "$1" "${2:-${VERIF_TIER:-quick}}"

#!/bin/bash
# run.sh <property id> [--replay file]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m vlib.harness "$@"

#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay file] [--only harness] [--jobs n]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=${VERIF_REPO:-/repo}
exec /opt/venv/bin/python -B run.py "$@"

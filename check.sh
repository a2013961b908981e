#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     (or: check.sh replay <file>)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYC=$(mktemp -d) || exit 2
trap 'rm -rf "$PYC"' EXIT
# fresh bytecode directory: stale .pyc files are never read, nothing is written below /repo
export PYTHONPYCACHEPREFIX="$PYC" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
"$PY" mc/engine.py "$1" "${2:-${VERIF_TIER:-quick}}"

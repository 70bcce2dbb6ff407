#!/bin/bash
# bash check.sh PROPERTY | --replay FILE      (tier from VERIF_TIER, default quick)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python mc/run.py "$@"

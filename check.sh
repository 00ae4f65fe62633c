#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]   or   bash check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore vp/run.py "$@"

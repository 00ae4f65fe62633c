#!/bin/bash
# Checks that the tools are there and that the code under test builds in a scratch copy.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore - <<'PY'
import sys, shutil
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis
from vp import build
d = build.build()
shutil.rmtree(d)
print("ok: hypothesis", hypothesis.__version__)
PY

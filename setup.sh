#!/bin/bash
# nothing to build ahead: every check imports /repo's current tree and compiles its kernels (numba) itself
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" - <<'E'
import glob, ast
for f in glob.glob("mc/*.py"):
    ast.parse(open(f).read(), f)
E

#!/bin/bash
# nothing to compile: the checks are pure Python and import the library from /repo's working tree
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" - <<'P'
import ast, pathlib
for f in pathlib.Path('mc').rglob('*.py'):
    ast.parse(f.read_text(), str(f))
print('ok')
P

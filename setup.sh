#!/bin/bash
# nothing to compile: the checks import torchiva straight from /repo; verify that this works
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
"$PY" - <<'E'
import monitors.core as c
c.setup_import()
import scipy, soundfile
print("setup ok")
E

#!/bin/bash
# Nothing to build: checks that the interpreter and the library can be used.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
from sim import target, props
target.load()
print('ready:', sorted(props.CHECKS))
P

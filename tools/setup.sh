#!/bin/bash
# Nothing to compile: check that the reference model reproduces the published vectors and that
# the interpreter offers what the monitors need.
cd "$(dirname "$0")/.." || exit 1
exec /opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, ".")
from lib import ref
print("reference model:", ref.selftest(), "published vectors and identities reproduced")
assert hasattr(sys, "monitoring"), "sys.monitoring is needed (Python 3.12)"
PY

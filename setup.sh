#!/bin/sh
# Prebuild the TLC operator overrides and the drivers (the checks rebuild whatever is missing or out of date).
cd "$(dirname "$0")" && exec python3 - <<'PY'
import sys
sys.path.insert(0, 'lib')
import vt
vt.classes()
vt.build_all(['w64', 'w32', 'rel'])
PY

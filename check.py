#!/usr/bin/env python3
"""python3 check.py <property>: decide one property (exit 0 held, 1 violated, 2 error of the check)."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
try:
    import vt
    rc = vt.main(sys.argv[1], importlib.import_module(sys.argv[1].lower()).check)
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)

#!/usr/bin/env python3
"""Run one check: run.py <property> [quick|thorough]. Exit 0 held, 1 violation, 2 tool error."""
import importlib.util, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
from vlib import core

prop = sys.argv[1]
try:
    sp = importlib.util.spec_from_file_location(prop, os.path.join(ROOT, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    mod.run()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    print("ERROR of the check itself (no verdict)")
    sys.exit(2)

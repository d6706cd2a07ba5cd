#!/usr/bin/env python3
"""python3 check.py Pxx [quick|thorough]: decides one property on /repo's current working tree."""
import importlib, os, sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
importlib.import_module(sys.argv[1].lower()).main()

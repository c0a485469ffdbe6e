#!/usr/bin/env python3
"""python3 check.py Cnn [--replay FILE]: one property's check. VERIF_SEED and VERIF_TIER as in the task; BI_BUDGET overrides the seconds."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
importlib.import_module("checks." + sys.argv[1].lower()).run()

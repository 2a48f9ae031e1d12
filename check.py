#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] : runs the check of one property."""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
pid = sys.argv[1]
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
import vf
vf.main(pid, importlib.import_module("checks." + pid).body)

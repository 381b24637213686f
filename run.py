#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
mod = importlib.import_module("checks." + sys.argv[1].lower())
vlib.main(mod.run)

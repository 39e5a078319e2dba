#!/usr/bin/env python3
"""python3-vt run_check.py <property> [--replay FILE | --sub NAME,...]   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    m = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(m.main())

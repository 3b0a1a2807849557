#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--group g,..] [--replay file]"""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import engine
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)
if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1])
    sys.exit(engine.main(mod, sys.argv[2:]))

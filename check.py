#!/usr/bin/env python3
import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import harness
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(harness.main(pid, mod.run, mod.LEVEL, tier))

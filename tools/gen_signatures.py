#!/usr/bin/env python3
"""Run once by hand: records parameter names by position, so that specifications can
name operands independently of how the current tree spells them."""
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, ir, kern
m = ir.Module(build.dump(kern.base_module(), "sig"))
out = {}
for n, f in m.functions.items():
    if not f.decl and n.startswith("nx_") and "." not in n:
        out[n] = [a["name"] for a in f.args]
json.dump(out, open(os.path.join(build.VERIF, "vlib", "signatures.json"), "w"), indent=0, sort_keys=True)
print(len(out))

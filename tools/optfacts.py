"""regenerate dsa/options.json (reviewed by hand against the tools' help)"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dsa.model import Program
from dsa import load, tools
p = Program(load.REPO)
out = {}
for m in sorted(p.mods):
    if m.startswith("bin."):
        o, why = tools.options(p, p.mods[m])
        assert not why, (m, why)
        for x in o:
            del x["line"]
        out[m] = o
json.dump(out, open("dsa/options.json", "w"), indent=1, sort_keys=True)

"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "\n## Planted bugs\n"
s = open(R + "/DESIGN.md").read().split(M)[0].rstrip("\n") + "\n" + M + """
Each was written from the property text and the code, confirmed to build, to keep the stable tests
passing and to be shown by its demo, then run against the property's quick check (seed 1).

| bug | property | needs | caught by |
|---|---|---|---|
"""
for p in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(p))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"], m.get("caught", m["property"] + " quick"))
open(R + "/DESIGN.md", "w").write(s)

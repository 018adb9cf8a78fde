#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_*.md, tools/design_props.py, properties.jsonl, seeded/ and tools/times.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools"); sys.path.insert(0, T)
from design_props import P
out = open(os.path.join(T, "design_head.md")).read()
times = json.load(open(os.path.join(T, "times.json"))) if os.path.exists(os.path.join(T, "times.json")) else {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in P: continue
    w, what, oracle, why = P[i]
    out += "### %s %s\n\n*Anchored in* %s. *Enumerated:* %s *Oracle:* %s *Beyond tests:* %s%s\n\n" % (i, p["title"], w, what, oracle, why, " *Cost:* %s." % times[i] if i in times else "")
out += open(os.path.join(T, "design_mid.md")).read()
out += "\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m.get("caught_by", m["property"]))
out += open(os.path.join(T, "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)

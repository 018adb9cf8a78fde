#!/usr/bin/env python3
"""Build one harness from the current tree of the repository, explore, report.

    run.py ID          ID is a property id; the tier comes from VERIF_TIER (quick by default)

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Any other exit is an error of the check itself.
"""
import array, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
from specs import SPECS, DEFAULT_FLAGS, STD_INCLUDES

REPO = os.environ.get("SMARTDNN_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
NSH = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()
# a run stops itself before the limit of the caller: a check that cannot finish says so (exit 2)
BUDGET = 840 if TIER == "quick" else 6 * 3600

def log(*a): print(*a, flush=True)

class CheckError(Exception): pass

def base_cmd(build, flags):
    cmd = ["g++", "-std=c++17"] + flags + ["-I" + os.path.join(VERIF, "harness"), "-I" + REPO, "-I" + os.path.join(build, "lowercase")]
    for h in STD_INCLUDES: cmd += ["-include", h]
    return cmd

def lowercase_dir(build):
    low = os.path.join(build, "lowercase", "smart_dnn")
    os.makedirs(low)
    src = os.path.join(REPO, "smart_dnn")
    for d in sorted(os.listdir(src)):
        if os.path.isdir(os.path.join(src, d)) and d.lower() != d:
            os.symlink(os.path.join(src, d), os.path.join(low, d.lower()))

def run_cmd(cmd, env=None, timeout=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")

ENV = dict(os.environ, VERIF_TIER=TIER, VERIF_SEED=str(SEED), LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=0:"
                        "max_allocation_size_mb=8000:handle_abort=1:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")

class Unit:
    """One executable: a harness compiled in one configuration."""
    def __init__(self, prop, spec, build, idx):
        self.prop, self.spec, self.build, self.idx = prop, spec, build, idx
        self.name = spec.get("name", "main")
        self.exe = os.path.join(build, "h%d" % idx)
        self.nsh = min(NSH, spec.get("shards", NSH))

    def compile_cmds(self):
        flags = list(self.spec.get("flags", DEFAULT_FLAGS)) + list(self.spec.get("extra", []))
        srcs = [os.path.join(VERIF, "harness", s) for s in self.spec["src"]]
        plain = [os.path.join(VERIF, "harness", s) for s in self.spec.get("plain", [])]
        cmds, objs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(self.build, "h%d_%d.o" % (self.idx, i)); objs.append(o)
            cmds.append(base_cmd(self.build, flags) + ["-c", s, "-o", o])
        for i, s in enumerate(plain):
            o = os.path.join(self.build, "h%d_p%d.o" % (self.idx, i)); objs.append(o)
            cmds.append(["g++", "-std=c++17", "-O1", "-g1"] + self.spec.get("plain_flags", []) + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o])
        self.lib_links = []
        for name, parts, ldf in self.spec.get("libs", []):
            lo = []
            for i, (src, fl, lib) in enumerate(parts):
                o = os.path.join(self.build, "h%d_%s_%d.o" % (self.idx, name, i)); lo.append(o)
                path = os.path.join(VERIF, "harness", src)
                cmds.append((base_cmd(self.build, fl) if lib else ["g++", "-std=c++17", "-I" + os.path.join(VERIF, "harness")] + fl) + ["-fPIC", "-fvisibility=hidden", "-c", path, "-o", o])
            self.lib_links.append(["g++", "-shared", "-Wl,-Bsymbolic"] + lo + ldf + ["-o", os.path.join(self.build, name)])
        ld = self.spec.get("ld", None)
        link = ["g++"] + (flags if ld is None else []) + objs + (ld or []) + ["-o", self.exe]
        return cmds, link

    def args(self, shard=None, only=None, limit=12):
        a = [self.exe, "--nshards", str(self.nsh), "--limit", str(limit)]
        if only is not None: a += ["--only", str(only)]
        else: a += ["--shard", str(shard), "--out", os.path.join(self.build, "h%d.%d.json" % (self.idx, shard)), "--live", os.path.join(self.build, "h%d.%d.live" % (self.idx, shard))]
        return a

def headers_compile(build):
    src = os.path.join(build, "headers.cpp")
    with open(src, "w") as f:
        f.write('#include "smart_dnn/Tensor/Tensor.hpp"\n#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"\n')
        for root, _, files in sorted(os.walk(os.path.join(REPO, "smart_dnn"))):
            for n in sorted(files):
                if n.endswith(".hpp") and not n.endswith(".impl.hpp"): f.write('#include "%s"\n' % os.path.join(root, n))
    rc, out = run_cmd(base_cmd(build, ["-O0", "-fsyntax-only"]) + [src])
    return rc == 0

def build_all(units, build):
    """Compile everything, 8 at a time. Returns (unit, text) of the first harness that no longer compiles, or None."""
    jobs = []
    for u in units:
        cmds, u.link = u.compile_cmds()
        jobs += [(u, c) for c in cmds]
    running, results = [], []
    def reap(block):
        for j in list(running):
            u, p, path = j
            if block or p.poll() is not None:
                p.wait(); running.remove(j)
                if p.returncode: results.append((u, open(path, errors="replace").read(), p.returncode))
                if block: return
    for n, (u, c) in enumerate(jobs):
        while len(running) >= 8: reap(True)
        path = os.path.join(build, "compile%d.log" % n)
        running.append((u, subprocess.Popen(c, stdout=open(path, "w"), stderr=subprocess.STDOUT), path))
    while running: reap(True)
    if results: return results[0][0], results[0][1]
    for u in units:
        for c in u.lib_links + [u.link]:
            rc, out = run_cmd(c)
            if rc: return u, out
    return None

def main():
    prop = sys.argv[1]
    spec = SPECS[prop]
    build = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return check(prop, spec, build)
    finally:
        shutil.rmtree(build, ignore_errors=True)

def replay_path(prop, unit, text):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (prop, re.sub(r"\W+", "_", unit.name)))
    with open(p, "w") as f: f.write(text)
    return p

def known_findings(prop):
    r = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: r.append(m.group(2))
    return r

def violation(prop, unit, text, stats):
    path = replay_path(prop, unit, text)
    log(text.rstrip()[-6000:])
    write_evidence(prop, stats, 1)
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

def write_evidence(prop, stats, violations):
    spec = SPECS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = spec["level"]
    cov = dict(stats)
    if level == "fault_enumeration":
        cov.setdefault("evaluations", cov.get("cases", 0)); cov.setdefault("distinct_nontrivial", cov.get("states", 0))
        cov.setdefault("rule", spec.get("rule", ""))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")

def union_count(files):
    s = set()
    for p in files:
        if os.path.exists(p):
            a = array.array("Q")
            with open(p, "rb") as f: a.frombytes(f.read())
            s.update(a)
    return len(s)

def check(prop, spec, build):
    lowercase_dir(build)
    units = [Unit(prop, u, build, i) for i, u in enumerate(spec["units"])]
    stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True}
    bad = build_all(units, build)
    if bad:
        u, out = bad
        if ("error:" in out or "undefined reference" in out) and headers_compile(build):
            errs = "\n".join([l for l in out.splitlines() if "error" in l or "undefined reference" in l][:20])
            return violation(prop, u, "The library's headers compile, but a use of its public interface needed by this property does not:\n" + errs + "\n", stats)
        log(out[-4000:]); raise CheckError("harness does not build")
    t_build = time.time() - T0

    procs, queue = {}, [(u, s) for u in units for s in range(u.nsh)]
    queue.sort(key=lambda x: -x[0].spec.get("weight", 1))
    results, first_bad = {}, None
    slow = set()
    def start(u, s):
        path = os.path.join(build, "h%d.%d.log" % (u.idx, s))
        procs[(u.idx, s)] = (u, s, subprocess.Popen(u.args(shard=s, limit=60 if (u.idx, s) in slow else 12), stdout=open(path, "w"), stderr=subprocess.STDOUT, env=ENV, cwd=build), path)
    while queue or procs:
        while queue and len(procs) < NSH: start(*queue.pop(0))
        for k in list(procs):
            u, s, p, path = procs[k]
            if p.poll() is None: continue
            del procs[k]
            if p.returncode == 77 and k not in slow: slow.add(k); queue.insert(0, (u, s)); continue   # no progress for a while: perhaps a busy machine
            if p.returncode != 0:
                first_bad = first_bad or (u, s, p.returncode, open(path, errors="replace").read())
            results[k] = p.returncode
        if first_bad or time.time() - T0 > BUDGET:
            for k in procs: procs[k][2].kill(); procs[k][2].wait()
            if not first_bad: raise CheckError("time budget exceeded")
            break
        time.sleep(0.01)

    outs = []
    cases = 0; enumerated = 0; rejected = 0; capped = False; bounds = {}; traces = 0
    for u in units:
        e = 0
        for s in range(u.nsh):
            p = os.path.join(build, "h%d.%d.json" % (u.idx, s))
            if not os.path.exists(p): continue
            o = json.load(open(p)); outs.append(p)
            cases += o["cases"]; rejected += o["rejected"]; capped |= o["states_capped"]; traces += o["traces"]
            e = max(e, o["enumerated"])
            stats["transitions"] += o["steps"]
            for x in o["samples"][:2]:
                if len(stats["samples"]) < 8: stats["samples"].append((u.name + ": " if len(units) > 1 else "") + x)
            for k, v in o["bounds"].items(): bounds[k] = v
        enumerated += e
    stats["states"] = union_count([p + ".states" for p in outs])
    stats["distinct_outcomes"] = union_count([p + ".outcomes" for p in outs])
    if not stats["distinct_outcomes"]: del stats["distinct_outcomes"]
    stats["cases"] = cases; stats["rejected_operations"] = rejected
    stats["traces_validated_against_impl"] = traces or cases
    stats["bounds"] = bounds
    stats["units"] = [u.name for u in units]
    stats["validation"] = spec.get("validation", "every explored trace is executed on the real code and compared with the reference model step by step")
    if capped: stats["state_set_capped"] = True

    if first_bad:
        stats["exhaustive"] = False
        return judge(prop, first_bad, stats, build)
    if cases != enumerated:
        raise CheckError("shards disagree: %d cases executed, %d enumerated" % (cases, enumerated))
    if cases == 0: raise CheckError("nothing explored")
    post = spec.get("post")
    if post:
        r = post(prop, build, stats, sys.modules[__name__])
        if r: return violation(prop, units[0], r, stats)
    for k in known_findings(prop): log("KNOWN-FINDING: property=%s %s" % (prop, k))
    write_evidence(prop, stats, 0)
    log("%s held: %d cases, %d transitions, %d distinct states, %.1f s (build %.1f s)" % (prop, cases, stats["transitions"], stats["states"], time.time() - T0, t_build))
    return 0

def judge(prop, first_bad, stats, build):
    """A shard ended badly: replay the case alone, twice, then the whole shard; report only what fails again."""
    u, s, rc, out = first_bad
    idx = None
    p = os.path.join(build, "h%d.%d.json" % (u.idx, s))
    if os.path.exists(p):
        o = json.load(open(p))
        if o["status"] == "failed": idx = o["index"]
    if idx is None:
        try:
            a = array.array("q"); a.frombytes(open(os.path.join(build, "h%d.%d.live" % (u.idx, s)), "rb").read(8)); idx = a[0]
        except Exception: idx = None
    if idx is None or idx < 0:
        if rc in (66, -6, -11) or "runtime error" in out or "ERROR: AddressSanitizer" in out:
            idx = None   # broken before the first case
        else:
            log(out[-4000:]); raise CheckError("shard ended with %d before any case" % rc)
    def attempt(limit):
        try: return run_cmd(u.args(only=idx, limit=limit), env=ENV, timeout=limit * 2 + 60, cwd=build)
        except subprocess.TimeoutExpired as e: return 77, "no answer within %d s\n" % (limit * 2 + 60) + (e.stdout or b"").decode("utf-8", "replace")[-2000:]
    if idx is not None:
        limit = 60 if rc == 77 else 30
        r1, o1 = attempt(limit)
        r2, o2 = (r1, o1) if r1 in (0, 77) else attempt(limit)
        if r1 != 0 and r2 != 0:
            if r1 in (2, 3, 126, 127): log(o1[-3000:]); raise CheckError("replay error")
            text = "property %s violated; replay of case %d of unit %s\nreplay: cd %s && python3 checks/replay.py %s %s %d\n\n%s\n" % (prop, idx, u.name, VERIF, prop, u.name, idx, shorten(o1))
            return violation(prop, u, text, stats)
    # not reproducible alone: does the same shard fail again?
    for f in (p,):
        if os.path.exists(f): os.remove(f)
    try: r3, o3 = run_cmd(u.args(shard=s, limit=300), env=ENV, timeout=BUDGET, cwd=build)
    except subprocess.TimeoutExpired: raise CheckError("replay of the shard timed out")
    if r3 != 0 and r3 not in (2, 3, 126, 127):
        text = "property %s violated; the failure depends on the cases before it (case %s of shard %d, unit %s)\n\n%s\n" % (prop, idx, s, u.name, shorten(o3))
        return violation(prop, u, text, stats)
    log(shorten(out)); raise CheckError("a failure was not reproducible")

def shorten(t):
    if len(t) < 12000: return t
    return t[:3000] + "\n  ...\n" + t[-9000:]

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e:
        log("ERROR: %s" % e); sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(); sys.exit(2)

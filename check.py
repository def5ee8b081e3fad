#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property of /repo by symbolic execution + SMT.
   check.py --setup                        build the engine and warm the object cache
   check.py --replay <file>                run a recorded counterexample against the natively compiled code
Exit 0: held on everything explored; 1: violation (line VIOLATION property=<id> replay=<path>); 2: no verdict."""
import sys, os, json, hashlib, subprocess, time, threading, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("TYCHO_REPO", "/repo")
B = os.path.join(V, "build"); CACHE = os.path.join(B, "cache"); SYMX = os.path.join(B, "symx")
sys.path.insert(0, os.path.join(V, "harness"))
CLANG = "/usr/lib/llvm-18/bin/clang++" if os.path.exists("/usr/lib/llvm-18/bin/clang++") else "clang++-18"
CLANGC = CLANG[:-2]; LINK = "llvm-link-18"
COMMON = ["-std=c++11", "-w", "-g", "-fopenmp", "-fno-access-control", "-DASSERT_ON=1", "-DUSE_PETSC=1",
          "-I" + V + "/rt/include", "-I" + REPO + "/src", "-I" + V + "/harness", "-include", "cstdint", "-include", "sxio.h"]
BC = [CLANG] + COMMON + ["-I" + V + "/rt/include_clang", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pic", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSX_ENGINE"]
NAT = ["g++"] + COMMON + ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
CORE = ["Assert", "Comm", "CommSides", "Global", "GraphTraverser", "KeyValueReader", "KrylovSolver", "ParallelMesh", "Priorities", "Problem", "PsiData", "Quadrature", "SerialMesh", "SourceIteration", "SweepSchedule", "Sweeper", "SweeperPBJ", "SweeperSchur", "SweeperTraverse", "Transport", "TychoMesh", "TychoMeshIO", "Util"]

class BuildError(Exception): pass
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def compile_obj(src, mode, extra=()):
    """compile one source file; results are cached by the hash of the preprocessed text"""
    isc = src.endswith(".c")
    cmd = ([CLANGC, "-O1", "-fno-pic", "-fno-pie", "-g", "-fno-builtin", "-w"] if isc else (BC if mode == "bc" else NAT)) + list(extra)
    p = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: raise BuildError("preprocessing %s failed:\n%s" % (src, p.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256(b"\0".join([c.encode() for c in cmd]) + b"\0" + mode.encode() + p.stdout).hexdigest()[:40]
    out = os.path.join(CACHE, h + (".bc" if mode == "bc" else ".o"))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        q = sh(cmd + (["-emit-llvm"] if mode == "bc" else []) + ["-c", src, "-o", tmp])
        if q.returncode: raise BuildError("compiling %s failed:\n%s" % (src, q.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, out)
    return out
def repo_sources(run):
    # every source of src/ except the driver, so that files added or renamed by a change are still linked
    srcs = sorted(os.listdir(REPO + "/src"))
    fl = tuple(run.get("src_flags", []))
    res = [(REPO + "/src/" + s, fl) for s in srcs if s.endswith(".cc") and s != "Main.cc" and not (run.get("without") and s[:-3] in run["without"])]
    for s, ex in run.get("extra_src", []): res.append((REPO + "/" + s, fl + tuple(ex)))
    return res
def build(run, mode, pool):
    files = [(V + "/harness/" + run["harness"], tuple(run.get("defs", []))), (V + "/rt/rt.cc", ()), (V + "/rt/mpimock.cc", ()), (V + "/rt/petscmock.cc", ())] + repo_sources(run)
    if mode == "bc": files.append((V + "/rt/libc.c", ()))
    else: files.append((V + "/rt/native.cc", ()))
    return list(pool.map(lambda f: compile_obj(f[0], mode, f[1]), files))
def cpus(): return max(1, min(8, os.cpu_count() or 1))

class Slots:
    def __init__(s, n): s.n = n; s.c = threading.Condition()
    def take(s, k):
        with s.c:
            while s.n < k: s.c.wait()
            s.n -= k
    def give(s, k):
        with s.c: s.n += k; s.c.notify_all()

def native_exe(run, work, pool):
    objs = build(run, "nat", pool); exe = os.path.join(work, run["harness"].replace(".", "_") + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:12] + ".exe")
    if not os.path.exists(exe):
        p = sh(["g++", "-fopenmp", "-fsanitize=address", "-Wl,-z,muldefs", "-o", exe] + objs)
        if p.returncode: raise BuildError("linking the native replay failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    return exe
def run_native(exe, symbols, params, work, tag, timeout=90, kinds=None):
    vf = os.path.join(work, tag + ".val")
    with open(vf, "w") as f:
        for n, k, v in symbols: f.write("%s %s %s\n" % (n, k, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1", SX_REPLAY_TIMEOUT="40", OMP_WAIT_POLICY="passive")
    if kinds: env["SX_NOASSERT"] = "1"
    try: p = sh([exe, vf] + ["%s=%s" % kv for kv in params.items()], env=env, timeout=timeout)
    except subprocess.TimeoutExpired: return 77, "REPLAY-VIOLATION hang: native run did not end"
    return p.returncode, p.stdout.decode(errors="replace")

def load_props():
    import props
    return props.PROPS
def known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == prop and k.get("status") == "known"]

ENGINE_ONLY = ("race",)   # confirmed by re-execution in the engine: a native run cannot be forced into the schedule
def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = load_props()[prop]; pool = ThreadPoolExecutor(cpus()); slots = Slots(cpus())
    work = os.path.join(B, "work", prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    q = sh(["bash", V + "/engine/build.sh"])
    if q.returncode: raise BuildError(q.stdout.decode(errors="replace")[-2000:])
    runs = [dict(r) for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
    for r in runs:
        r["params"] = dict(r.get("params", {}))
        if tier == "thorough": r["params"].update(r.get("thorough", {})); 
        if tier == "thorough" and "thorough_timeout" in r: r["timeout"] = r["thorough_timeout"]
    for r in runs: r["objs"] = None
    done = {}
    for r in runs:
        k = (r["harness"], tuple(r.get("defs", [])), json.dumps(r.get("extra_src", [])), json.dumps(r.get("without", [])), json.dumps(r.get("src_flags", [])))
        if k not in done:
            objs = build(r, "bc", pool); bc = os.path.join(work, "m%d.bc" % len(done))
            p = sh([LINK, "-o", bc] + objs[1:] + ["--override=" + objs[0]])
            if p.returncode: raise BuildError("llvm-link failed:\n" + p.stdout.decode(errors="replace")[-3000:])
            done[k] = bc
        r["bc"] = done[k]
    def one(r):
        j = min(r.get("jobs", cpus()), cpus()); slots.take(j)
        try:
            out = os.path.join(work, r["name"] + ".json")
            cmd = [SYMX, r["bc"], "--entry", "sx_main", "--out", out, "--repo", REPO, "--jobs", str(j), "--timeout", str(r.get("timeout", 240)), "--qtimeout", str(r.get("qtimeout", 20000)), "--max-viol", str(r.get("max_viol", 1)), "--mem", str(r.get("mem", 3300))]
            if r.get("no_race", True): cmd.append("--no-race")
            if r.get("no_div0"): cmd.append("--no-div0")
            if r.get("kinds"): cmd += ["--kinds", r["kinds"]]
            for k, v in r["params"].items(): cmd += ["-p", "%s=%s" % (k, v)]
            try: p = sh(cmd, timeout=r.get("timeout", 240) + 60)
            except subprocess.TimeoutExpired: r["res"] = dict(engine_error="engine did not stop at its time limit"); return
            r["rc"] = p.returncode; r["log"] = p.stdout.decode(errors="replace")[-2000:]
            try: r["res"] = json.load(open(out))
            except Exception as e: r["res"] = dict(engine_error="engine crashed: rc=%s %s" % (p.returncode, r["log"][-400:]))
        finally: slots.give(j)
    with ThreadPoolExecutor(len(runs)) as ex: list(ex.map(one, runs))
    # ---- evaluate
    viol, problems, kf, bounds, fns, samples = [], [], [], [], {}, []
    tot = {k: 0 for k in ("steps", "paths", "forks", "states", "queries", "sat", "unsat", "unknown", "asserts", "asserts_constant", "asserts_solver", "asserts_normal_form", "branches_by_interval", "sym_branches", "switches", "race_checks")}; solver = 0.0; slow = 0.0; reach = {}
    for r in runs:
        d = r["res"]
        if d.get("engine_error") and not d.get("violations"): problems.append("%s: engine: %s" % (r["name"], d["engine_error"])); 
        if "steps" not in d: continue
        for k in tot: tot[k] += d.get(k, 0)
        solver += d["solver_s"]; slow = max(slow, d["slowest_query_s"])
        for k, v in d["reach"].items(): reach[k] = reach.get(k, 0) + v
        for k, v in d["functions"].items(): fns[k] = fns.get(k, 0) + v
        for i in d.get("incomplete", []): 
            if not r.get("partial_ok"): problems.append("%s: %s" % (r["name"], i))
        for v in d["violations"]: viol.append((r, v))
        if not d["violations"] and not d.get("engine_error"):
            for t in r.get("require", []):
                if not d["reach"].get(t): problems.append("%s: vacuous: '%s' never reached" % (r["name"], t))
        for s in d.get("samples", [])[:2]: samples.append((r, s))
        bounds.append({"run": r["name"], "harness": r["harness"], "parameters": r["params"], "bounds": r.get("bounds", ""), "paths": d["paths"], "queries": d["queries"], "asserts_by_solver": d["asserts_solver"], "wall_s": d["wall_s"], "complete": not d.get("incomplete"), "incomplete": d.get("incomplete", [])})
    lines = []; confirmed = []; traces = 0
    for r, v in viol:
        sig = "%s | %s | %s | %s" % (r["name"], v["kind"], v["message"], v["where"])
        k = [x for x in known(prop) if re.search(x["match"], sig)]
        if k: kf.append(k[0]); continue
        rp = os.path.join(B, "replay"); os.makedirs(rp, exist_ok=True); path = os.path.join(rp, "%s-%s.json" % (prop, r["name"]))
        rec = {"property": prop, "run": r["name"], "harness": r["harness"], "params": r["params"], "violation": v, "how": "python3 check.py --replay " + path}
        if v["kind"] in ENGINE_ONLY or (v["kind"] == "memory" and "uninit" in v["message"]) or r.get("engine_replay"):
            # deterministic re-execution: same inputs, all concrete
            rec["replayed"] = "the engine found this as the direct result of executing the real code on the listed inputs and schedule"; ok = True
        else:
            try:
                exe = native_exe(r, work, pool); rc, out = run_native(exe, v["symbols"], r["params"], work, "v", kinds=r.get("kinds")); rec["native_rc"] = rc; rec["native_output"] = out[-3000:]; ok = rc == 77 and "REPLAY-START" in out; traces += 1
            except BuildError as e: ok = False; rec["native_output"] = str(e)
        json.dump(rec, open(path, "w"), indent=1)
        if ok: confirmed.append(path); lines.append("  %s: %s: %s\n    at %s\n    inputs: %s" % (r["name"], v["kind"], v["message"], v["where"], " ".join("%s=%s" % (a, c) for a, b, c in v["symbols"][:24])))
        else: problems.append("%s: counterexample not reproduced natively: %s: %s (%s)" % (r["name"], v["kind"], v["message"], path))
    # ---- validate the engine on completed paths: same inputs, natively compiled code, same outcome
    validated = 0; shown = []
    if not viol and not problems or (viol and not confirmed and not problems):
        seen = set(); todo = []
        for r, s in samples:
            key = r["name"]
            if key in seen: continue
            if r.get("no_native"): continue
            seen.add(key); todo.append((r, s))
        for r, s in todo[:3]:
            try:
                exe = native_exe(r, work, pool); rc, out = run_native(exe, s["symbols"], r["params"], work, "s"); traces += 1
                got = sorted(l[8:] for l in out.splitlines() if l.startswith("REACHED ")); ok = rc == 0 and got == sorted(s["reached"])
                if ok: validated += 1
                elif rc == 3 and "REPLAY-DIVERGED" in out: pass   # rounding of a real-valued model left the assumed domain
                else: problems.append("%s: engine and native code disagree on a completed path (rc %d): %s" % (r["name"], rc, out[-600:]))
                shown.append({"run": r["name"], "inputs": s["symbols"][:16], "reached": s["reached"][:10], "path_conditions": s["path_conditions"], "instructions": s["instructions"], "native_agrees": ok})
            except BuildError as e: problems.append("native build for validation: " + str(e)[-500:])
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
                       "samples": shown or [{"violation": v["message"], "inputs": v["symbols"][:20]} for r, v in viol][:3] or [{"note": "no completed path"}],
                       "explanation": "states = symbolic states explored (each a class of inputs/schedules, path condition decided by z3); transitions = IR instructions of the real code + harness executed symbolically; traces_validated = completed paths whose inputs were rerun on the natively compiled code with the same outcome",
                       "method": "symbolic execution of LLVM IR compiled from /repo on this run; every branch and assertion decided by z3",
                       "functions_encoded": fns, "functions_encoded_count": len(fns), "bounds": bounds, "paths_completed": tot["paths"], "forks": tot["forks"],
                       "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(solver, 3), "slowest_query_s": slow,
                       "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["asserts_solver"], "assertions_decided_by_polynomial_normal_form_or_interval": tot["asserts_normal_form"], "branches_decided_by_interval": tot["branches_by_interval"], "assertions_constant_on_path": tot["asserts_constant"], "symbolic_branches": tot["sym_branches"], "rank_or_thread_switches": tot["switches"], "race_checks": tot["race_checks"], "reachability_witnesses": reach,
                       "outside_the_bounds": P.get("outside", ""), "known_findings": [k["what"] for k in kf], "problems": problems, "native_replays": traces},
          "assumptions": P.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in {k["what"]: k for k in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d runs, %d states, %d paths, %d queries (%d unsat), %d assertions, solver %.1fs, wall %.1fs" % (prop, tier, len(runs), tot["states"], tot["paths"], tot["queries"], tot["unsat"], tot["asserts"], solver, wall))
    for l in lines: print(l)
    for p in problems: print("  no verdict: " + p)
    if confirmed:
        for c in confirmed[:1]: print("VIOLATION property=%s replay=%s" % (prop, c))
        return 1
    return 2 if problems else 0

def setup():
    t = time.time(); q = sh(["bash", V + "/engine/build.sh"]); print(q.stdout.decode(errors="replace"))
    if q.returncode: return 1
    pool = ThreadPoolExecutor(cpus()); seen = set(); bad = 0
    jobs = []
    for p, P in sorted(load_props().items()):
        for r in P["runs"]:
            for mode in ("bc", "nat"):
                k = (r["harness"], tuple(r.get("defs", [])), json.dumps(r.get("extra_src", [])), json.dumps(r.get("src_flags", [])), mode)
                if k in seen: continue
                seen.add(k)
                try: build(r, mode, pool)
                except BuildError as e: print(p, e); bad = 1
    print("setup done in %.1f s" % (time.time() - t)); return bad
def replay(path):
    d = json.load(open(path)); P = load_props()[d["property"]]; r = [x for x in P["runs"] if x["name"] == d["run"]][0]
    work = tempfile.mkdtemp(prefix="sxreplay"); pool = ThreadPoolExecutor(cpus())
    try: exe = native_exe(dict(r), work, pool); rc, out = run_native(exe, d["violation"]["symbols"], d["params"], work, "v", kinds=r.get("kinds")); print(out); print("native exit code", rc); return 1 if rc == 77 else 0
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup": sys.exit(setup())
        if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except BuildError as e:
        print("no verdict: " + str(e)); sys.exit(2)

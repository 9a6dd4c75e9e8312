#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]    decide one property
   check.py --setup                        build the engine
   check.py --replay FILE.json             replay a recorded violation natively
   check.py ID --job ENTRY [-v]            run a single job (development)"""
import sys, os, re, json, time, hashlib, subprocess, shutil, tempfile, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo"); CACHE = os.path.join(V, ".cache")
sys.path.insert(0, V)
NCPU = os.cpu_count() or 8
T0 = time.time()
def log(*a):
    if VERB: print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)
VERB = "-v" in sys.argv
class BuildError(Exception): pass
def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace")
def must(cmd, what):
    rc, o = run(cmd)
    if rc: raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), o[-3000:]))
# ------------------------------------------------------------------ engine
def build_engine():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must(["make", "-s", "-C", os.path.join(V, "engine")], "engine build")
SYMX = os.path.join(V, "engine", "symx")
# ------------------------------------------------------------------ configuration header, as cmake generates it for the test build
CFG = {"STXXL_VERSION_MAJOR": "1", "STXXL_VERSION_MINOR": "4", "STXXL_VERSION_PATCH": "99", "STXXL_VERSION_STRING": "1.4.99", "STXXL_VERSION_PHASE": "prerelease/vp",
       "STXXL_HAVE_MMAP_FILE": "1", "STXXL_HAVE_LINUXAIO_FILE": "1", "STXXL_POSIX_THREADS": "1", "STXXL_HAVE_CXX11_RANGE_FOR_LOOP": "1", "STXXL_HAVE_SYNC_ADD_AND_FETCH": "1",
       "STXXL_PARALLEL": "1", "STXXL_WITH_GNU_PARALLEL": "1", "STXXL_HAVE_MALLINFO_PROTO": "1", "STXXL_HAVE_MLOCK_PROTO": "1"}
def config_h():
    out = []
    for l in open(REPO + "/include/stxxl/bits/config.h.in"):
        m = re.match(r"\s*#cmakedefine\s+(\w+)", l)
        if m: l = ("#define %s %s\n" % (m.group(1), CFG[m.group(1)])) if m.group(1) in CFG else "/* #undef %s */\n" % m.group(1)
        out.append(re.sub(r"\$\{(\w+)\}", lambda k: CFG.get(k.group(1), ""), l))
    return "".join(out)
DEFS = ["-std=c++11", "-fopenmp", "-w", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-D_LARGE_FILES"]
GUEST = ["clang++-18", "-O1", "-gline-tables-only", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", "-I" + V + "/rt/fakeinc"] + DEFS
RTF = ["-std=c++11", "-O1", "-gline-tables-only", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-w", "-D_FILE_OFFSET_BITS=64", "-emit-llvm", "-c"]
NAT = ["g++", "-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVP_NATIVE", "-c"] + DEFS
TSAN = ["g++", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DVP_NATIVE", "-c"] + DEFS
WRAPS = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal "
         "pthread_cond_broadcast pthread_create pthread_join pthread_self pthread_detach gettimeofday usleep sleep getpid getenv sysconf open64 open close lseek64 lseek read write pread64 pwrite64 "
         "ftruncate64 truncate64 fsync fdatasync fstat64 stat64 unlink remove rename access fcntl64 fcntl ioctl mmap64 munmap syscall atexit").split()
def libsources():
    r = []
    for d in ("common", "io", "mng", "algo"): r += glob.glob(REPO + "/lib/%s/*.cpp" % d)
    return sorted(f for f in r if not re.search(r"boostfd|wincall|wfs_file|fileperblock_dummy", os.path.basename(f)))
def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/lib", V + "/rt", V + "/harness"):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if root == V + "/harness" and not f.endswith(".h"): continue
                if f.endswith((".cpp", ".h", ".c", ".in", ".txt")) or "fakeinc" in p: h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((GUEST, RTF, NAT, TSAN, WRAPS, CFG)).encode()); return h.hexdigest()[:20]
class Build:
    def __init__(self):
        self.key = tree_hash(); self.d = os.path.join(CACHE, self.key); os.makedirs(self.d + "/inc/stxxl/bits", exist_ok=True)
        for o in sorted(glob.glob(CACHE + "/*/"), key=os.path.getmtime)[:-12]:
            if os.path.abspath(o) != self.d: shutil.rmtree(o, ignore_errors=True)
        c = self.d + "/inc/stxxl/bits/config.h"
        if not os.path.exists(c):
            t = c + ".%d" % os.getpid(); open(t, "w").write(config_h()); os.rename(t, c)
        self.inc = ["-I" + self.d + "/inc", "-I" + REPO + "/include", "-I" + V + "/rt", "-I" + V + "/harness"]
        self.pool = ThreadPoolExecutor(NCPU)
    def comp(self, cmd, src, out):
        if os.path.exists(out): return out
        t = "%s.%d.tmp" % (out, os.getpid()); must(cmd + [src, "-o", t], "compiling " + src); os.rename(t, out); return out
    def start(self, harnesses, native=True):
        h = lambda x: hashlib.sha256(open(V + "/harness/%s.cpp" % x, "rb").read()).hexdigest()[:10]
        hid = {x: x + "-" + h(x) for x in harnesses}; P = self.pool.submit; self.hid = hid
        hb = {x: P(self.comp, GUEST + self.inc, V + "/harness/%s.cpp" % x, self.d + "/h_%s.bc" % hid[x]) for x in harnesses}
        lb = [P(self.comp, GUEST + self.inc, s, self.d + "/g_" + os.path.basename(s) + ".bc") for s in libsources()]
        rt = [P(self.comp, ["clang++-18"] + RTF + ["-I" + V + "/rt/fakeinc", "-I" + V + "/rt"], V + "/rt/" + s, self.d + "/rt_" + s + ".bc") for s in ("rt.cpp", "env.cpp", "omp_rt.cpp")]
        rt.append(P(self.comp, ["clang-18"] + [f for f in RTF if not f.startswith("-std")], V + "/rt/rt_c.c", self.d + "/rt_c.bc"))
        self.nh = {}; self.nl = []
        if native:
            self.nh = {x: P(self.comp, NAT + self.inc, V + "/harness/%s.cpp" % x, self.d + "/n_%s.o" % hid[x]) for x in harnesses}
            self.nl = [P(self.comp, NAT + self.inc, s, self.d + "/n_" + os.path.basename(s) + ".o") for s in libsources()]
            self.nl += [P(self.comp, NAT + self.inc, V + "/rt/" + s, self.d + "/nrt_" + s + ".o") for s in ("env.cpp", "native.cpp", "omp_rt.cpp")]
        self.hb, self.lb, self.rt = hb, lb, rt
    def link_guest(self, x):
        out = self.d + "/%s.linked.bc" % self.hid[x]
        if not os.path.exists(out):
            fs = [f.result() for f in self.lb] + [f.result() for f in self.rt] + [self.hb[x].result()]
            t = out + ".%d" % os.getpid(); must(["llvm-link-18"] + fs + ["-o", t], "linking guest " + x); os.rename(t, out)
        return out
    def link_native(self, x):
        out = self.d + "/%s.native" % self.hid[x]
        if not os.path.exists(out):
            fs = [f.result() for f in self.nl] + [self.nh[x].result()]
            t = out + ".%d" % os.getpid(); must(["g++", "-fopenmp", "-fsanitize=address"] + ["-Wl,--wrap=" + w for w in WRAPS] + fs + ["-o", t], "linking native " + x); os.rename(t, out)
        return out
    def link_tsan(self, x):
        out = self.d + "/%s.tsan" % self.hid[x]
        if not os.path.exists(out):
            P = self.pool.submit; plain = [a for a in TSAN if a != "-fsanitize=thread"]
            fs = [P(self.comp, TSAN + self.inc, s, self.d + "/t_" + os.path.basename(s) + ".o") for s in libsources()] + [P(self.comp, TSAN + self.inc, V + "/harness/%s.cpp" % x, self.d + "/t_%s.o" % self.hid[x])]
            fs += [P(self.comp, plain + self.inc, V + "/rt/" + s, self.d + "/trt_" + s + ".o") for s in ("env.cpp", "native.cpp", "omp_rt.cpp")]
            fs = [f.result() for f in fs]
            t = out + ".%d" % os.getpid(); must(["g++", "-fopenmp", "-fsanitize=thread"] + ["-Wl,--wrap=" + w for w in WRAPS] + fs + ["-o", t], "linking race detector " + x); os.rename(t, out)
        return out
# ------------------------------------------------------------------ native replay
def native(prog, entry, inputs, params, fill=None, timeout=40, mf=0):
    d = tempfile.mkdtemp(prefix="vpr"); f = d + "/in.txt"
    try:
        with open(f, "w") as o:
            for n, v in inputs:
                if not n.startswith("undef:"): o.write("%s %d\n" % (n, v))
        env = {"PATH": "/usr/bin:/bin", "OMP_NUM_THREADS": "1", "STXXLLOGFILE": "/dev/null", "STXXLERRLOGFILE": "/dev/null",
               "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:atexit_sleep_ms=0", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1" + ("" if fill is None else ":malloc_fill_byte=%d:max_malloc_fill_size=1000000" % fill)}
        if mf: env["VP_MAINFIRST"] = "1"
        try: p = subprocess.run([prog, entry, f] + [str(x) for x in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d, env=env)
        except subprocess.TimeoutExpired: return {"rc": -1, "kind": "hang", "text": "no result within %ds" % timeout, "obs": None}
        so = p.stdout.decode("utf8", "replace"); se = p.stderr.decode("utf8", "replace")
        if "WARNING: ThreadSanitizer: data race" in se: return {"rc": p.returncode, "kind": "tsan", "obs": None, "text": " ".join(re.findall(r"data race|(?:Read|Write|Previous \w+|Atomic \w+) of size \d+|#0 [^\n]*", se)[:6])[:600]}
        m = re.search(r"VP-RESULT (\S+) obs=(\w+) nobs=(\d+) used=(\d+) ?(.*)", so)
        if m: return {"rc": p.returncode, "kind": m.group(1), "obs": m.group(2), "nobs": int(m.group(3)), "used": int(m.group(4)), "text": m.group(5)}
        k = "asan" if "AddressSanitizer" in se else "crash"
        mm = re.search(r"(ERROR: AddressSanitizer.*)", se)
        return {"rc": p.returncode, "kind": k, "obs": None, "text": (mm.group(1) if mm else (so + se)[-600:])[:600]}
    finally: shutil.rmtree(d, ignore_errors=True)
BAD = ("tsan", "check", "deadlock", "abort", "signal", "hang", "uncaught-exception", "asan", "crash")
FILLS = (None, 0x00, 0xff, 0x01, 0x7f)
def confirm(b, prog, job, params, viol, mf=0):
    """replay a solver model on the real code; returns the native result if it reproduces"""
    last = None
    if viol["kind"] == "data-race":
        r = native(b.link_tsan(job["h"]), job["entry"], viol["inputs"], params, mf=mf); r["fill"] = None
        return r, r["kind"] in BAD
    for f in (FILLS if viol["undef"] else (None,)):
        r = native(prog, job["entry"], viol["inputs"], params, f, mf=mf); last = r; r["fill"] = f
        if r["kind"] in BAD: return r, True
    return last, False
# ------------------------------------------------------------------ known findings
def known(pid):
    p = V + "/known_findings.json"
    return [k for k in (json.load(open(p))["findings"] if os.path.exists(p) else []) if k["property"] == pid and k.get("status") == "open"]
def match_known(ks, entry, v):
    for k in ks:
        if k["entry"] == entry and re.search(k["match"], v["kind"] + ": " + v["msg"] + " @ " + v["where"] + "\n" + v["trace"]): return k
    return None
# ------------------------------------------------------------------ main
def decide(pid, tier, seed, only=None):
    import checks, bounds
    c = checks.CHECKS[pid]; jobs = [dict(j) for j in c["jobs"] if (only is None or j["entry"] == only)]
    build_engine(); b = Build(); hs = sorted({j["h"] for j in jobs}); b.start(hs); log("build started", b.key)
    out = tempfile.mkdtemp(prefix="vpc"); ks = known(pid); results = []; problems = []; viols = []; notes = []; kf = set()
    lpool = ThreadPoolExecutor(4); links = {x: lpool.submit(b.link_guest, x) for x in hs}
    def runs():
        for j in jobs:
            sets = j.get("t") if tier == "thorough" and j.get("t") else j.get("q", [[]])
            for i, ps in enumerate(sets):
                for mf in ((0, 1) if tier == "thorough" else (1 - i % 2,)): yield j, list(ps), i, mf
    budget = c.get("budget", 150 if tier == "quick" else 3000)
    def one(a):
        j, ps, i, mf = a; bc = links[j["h"]].result(); o = "%s/%s.%d.%d.json" % (out, j["entry"], i, mf)
        left = (T0 + (600 if tier == "quick" else 5400)) - time.time()
        to = max(5, min(j.get("to", budget) if tier == "quick" else j.get("tto", budget), left))
        cmd = [SYMX, bc, "--entry", j["entry"], "--out", o, "--timeout", str(to), "--samples", str(j.get("samples", 4 if tier == "quick" else 20)), "--seed", str(seed), "--max-viol", str(j.get("maxviol", 4)),
               "--max-steps", str(j.get("steps", 60000000)), "--max-mem", str(j.get("mem", 3500)), "--solver-timeout", "30000"]
        for p in ps: cmd += ["--param", str(p)]
        if mf: cmd.append("--main-first")
        log("run", j["entry"], ps)
        rc, txt = run(cmd, timeout=to + 300)
        if rc not in (0, 1) or not os.path.exists(o): return a, None, txt[-2000:]
        r = json.load(open(o)); log("done", j["entry"], ps, "paths", r["paths"], "inc", r["incomplete"], "viol", len(r["violations"]), "wall", r["wall_s"])
        return a, r, txt
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, list(runs())))
    tot = dict.fromkeys("paths assumed_away incomplete states forks instructions order_decided queries sat unsat unknown checks const_checks check_queries undef_reads switches".split(), 0); solver_s = 0.0
    fns = set(); samples = []; validated = 0; cov = {}; jobrep = []; spool = ThreadPoolExecutor(NCPU)
    for (j, ps, i, mf), r, txt in res:
        if r is None: problems.append("engine failed on %s: %s" % (j["entry"], txt)); continue
        for k in tot: tot[k] += r[k]
        solver_s += r["solver_s"]; fns.update(r["functions"])
        jr = {"entry": j["entry"], "params": ps, "schedule": "main thread first" if mf else "other threads first", "bounds": j.get("bounds", ""), "paths": r["paths"], "incomplete": r["incomplete"], "queries": r["queries"], "check_queries": r["check_queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"], "covers": r["covers"], "exhausted": r["incomplete"] == 0 and not r["violations"]}
        if r["unsupported"]: jr["cut"] = [u[:300] for u in r["unsupported"][:4]]
        jobrep.append(jr)
        prog = b.link_native(j["h"])
        bad = False
        for v in r["violations"]:
            k = match_known(ks, j["entry"], v)
            if k: kf.add(k["what"]); bad = True; continue
            rr, ok = confirm(b, prog, j, ps, v, mf)
            log("replay", j["entry"], v["kind"], v["msg"][:80], "->", rr["kind"], rr["text"][:200])
            if ok: viols.append((j, ps, v, rr, mf)); bad = True; break
            if v["undef"] or v["kind"] == "hang": notes.append("not reproduced (depends on %s): %s %s at %s" % ("indeterminate memory" if v["undef"] else "an instruction budget", v["kind"], v["msg"][:200], v["where"][:200])); bad = True
            else: problems.append("%s: solver counterexample does not replay: %s %s at %s; native: %s %s" % (j["entry"], v["kind"], v["msg"][:200], v["where"][:300], rr["kind"], rr["text"][:200])); bad = True
        cov.setdefault(j["entry"], [set(), False, j, r["unsupported"][:2]]); cov[j["entry"]][0].update(r["covers"]); cov[j["entry"]][1] |= bad
        fs = [(s, spool.submit(native, prog, j["entry"], s["inputs"], ps, mf=mf)) for s in r["samples"]]
        for s, f in fs:
            rr = f.result()
            if rr["kind"] in BAD:
                v = {"kind": rr["kind"], "msg": rr["text"], "where": "", "trace": "", "inputs": s["inputs"], "undef": False}
                if match_known(ks, j["entry"], v): continue
                if not bad: viols.append((j, ps, v, rr, mf)); bad = True
            elif rr["kind"] != "ok": problems.append("%s: sampled path does not replay: %s %s" % (j["entry"], rr["kind"], rr["text"][:200]))
            elif s["cmp"] and (rr["obs"] != s["obs"] or rr["nobs"] != s["nobs"]): problems.append("%s: native run and encoding disagree on observations for %s" % (j["entry"], s["inputs"][:12]))
            else: validated += 1
            if len(samples) < 12: samples.append({"entry": j["entry"], "params": ps, "inputs": s["inputs"][:40], "observations": s["obs"], "native": rr["kind"]})
    for e, (got, bad, j, cut) in cov.items():
        miss = [x for x in j.get("covers", ["end"]) if x not in got]
        if miss and not bad: problems.append("%s: required states not reached: %s (cut: %s)" % (e, miss, cut))
    shutil.rmtree(out, ignore_errors=True)
    one = {}
    for x in viols: one.setdefault((x[0]["entry"], x[2]["msg"][:60]), x)
    nviol = len(viols); viols = list(one.values())[:6]
    os.makedirs(V + "/evidence/replay", exist_ok=True); lines = []; seen = set()
    for n, (j, ps, v, rr, mf) in enumerate(viols):
        f = "evidence/replay/%s-%s-%d.json" % (pid, j["entry"], n)
        json.dump({"property": pid, "harness": j["h"], "entry": j["entry"], "params": ps, "main_first": mf, "inputs": v["inputs"], "fill": rr.get("fill"), "kind": v["kind"], "msg": v["msg"], "where": v["where"], "trace": v["trace"], "native": rr}, open(V + "/" + f, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, f))
        print("# %s: %s: %s\n#   at %s\n#   native replay: %s %s" % (j["entry"], v["kind"], v["msg"].split("\n")[0][:300], v["where"][:300], rr["kind"], rr["text"][:300]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {
        "oracle": bounds.B.get(pid, ("", ""))[0], "bounds": bounds.B.get(pid, ("", ""))[1], "states": tot["states"], "transitions": tot["instructions"], "traces_validated_against_impl": validated, "samples": samples or [{"none": "no path completed"}],
        "exhaustive": not problems and all(j["exhausted"] for j in jobrep), "paths_completed": tot["paths"], "paths_assumed_away": tot["assumed_away"], "paths_incomplete": tot["incomplete"],
        "solver": "z3 (bit-vectors)", "queries": tot["queries"], "queries_decided_by_order_closure": tot["order_decided"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(solver_s, 2),
        "assertions_evaluated": tot["checks"], "assertions_discharged_by_solver": tot["check_queries"], "indeterminate_bytes_read": tot["undef_reads"], "thread_switches": tot["switches"],
        "functions_encoded": len(fns), "functions": sorted(fns)[:400], "jobs": jobrep, "unconfirmed": notes, "problems": problems[:10], "known_findings_seen": sorted(kf)},
        "assumptions": checks.ASSUME + c.get("assume", []), "wall_s": round(time.time() - T0, 1), "violations": nviol}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in sorted(kf): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for l in lines: print(l)
    if VERB or problems:
        for p in problems: print("# problem:", p[:1500])
        for p in notes: print("# note:", p[:600])
    print("# %s %s: %d paths (%d incomplete), %d queries, %.1fs solver, %d native replays agree, %.1fs" % (pid, tier, tot["paths"], tot["incomplete"], tot["queries"], solver_s, validated, time.time() - T0))
    if lines: return 1
    return 2 if problems else 0
def replay(f):
    r = json.load(open(f)); build_engine(); b = Build(); b.start([r["harness"]]); prog = (b.link_tsan if r["kind"] == "data-race" else b.link_native)(r["harness"])
    x = native(prog, r["entry"], r["inputs"], r["params"], r.get("fill"), mf=r.get("main_first", 0)); print(json.dumps(x, indent=1)); return 1 if x["kind"] in BAD else 0
def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    if not a: print(__doc__); return 2
    if a[0] == "--setup": build_engine(); return 0
    if a[0] == "--replay": return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick"); only = None; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--job" in a: only = a[a.index("--job") + 1]
    try: return decide(a[0], tier, seed, only)
    except BuildError as e: print("# build error:", str(e)[:3000]); return 2
if __name__ == "__main__": sys.exit(main())

#!/usr/bin/env python3
"""mutate.py PROPERTY N [--seed S] [--files a,b] : small mutants of the files a property is anchored in; prints those its quick check does not notice.
Development tool: works on copies below /tmp/mut, needs evidence/PROPERTY.json of a clean run."""
import sys, os, re, json, random, subprocess, hashlib, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
pid = sys.argv[1]; N = int(sys.argv[2]); A = dict(zip(sys.argv[3::2], sys.argv[4::2])); rnd = random.Random(int(A.get("--seed", 1))); PAR = int(A.get("--par", 7))
os.environ["VP_REPO"] = "/repo"; sys.argv = ["x"]
import check, checks
BASE = A.get("--base", "/repo"); props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
files = A["--files"].split(",") if "--files" in A else props[pid]["anchors"]["files"]
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]),
       (r"\+\+", ["--"]), (r"--", ["++"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" / ", [" * "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\bif \(", ["if (!", "if (false && ", "if (true || "]), (r"\bwhile \(", ["if ("]), (r"!(?=[a-z(])", [""]), (r"\b0\b", ["1"]), (r"\bmin\b|STXXL_MIN", ["STXXL_MAX"]), (r"<< ", [">> "])]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|typedef|using|class|struct|namespace|public|private|protected|assert|STXXL_|friend|static_assert|enum)|assert\(|VERBOSE|STXXL_MSG|std::cout|ERRMSG")
def cands(f):
    r = []; lines = open(BASE + "/" + f).read().split("\n"); com = False
    for i, l in enumerate(lines):
        if "/*" in l: com = True
        if "*/" in l: com = False; continue
        if com or SKIP.search(l) or not l.strip(): continue
        code = l.split("//")[0]
        if '"' in code: continue
        for p, rs in OPS:
            for m in re.finditer(p, code):
                for x in rs:
                    if p.startswith(r"\bif") and not code.rstrip().endswith(")"): continue
                    n = code[:m.start()] + x + code[m.end():]
                    if p.startswith(r"\bif"):
                        if x == "if (!": n = code[:m.start()] + "if (!(" + code[m.end():].rstrip() + ")"
                        else: n = code[:m.start()] + x + "(" + code[m.end():].rstrip() + ")"
                    r.append((f, i, n))
        if re.match(r"^\s*[\w.\->\[\]():*&, +]+;\s*$", code) and not re.match(r"^\s*(return|break|continue|delete|goto|\w[\w:<>]* [\w]+( =.*)?;|case|default)", code): r.append((f, i, re.match(r"\s*", code).group() + ";"))
    return r
byfile = {f: cands(f) for f in files}; total = sum(map(len, byfile.values())); allc = []
for f in files: rnd.shuffle(byfile[f]); 
allc = [c for f in files for c in byfile[f]]; rnd.shuffle(allc)
c = checks.CHECKS[pid]; ev = {}
try:
    for j in json.load(open(V + "/evidence/%s.json" % pid))["coverage"]["jobs"]: ev[(j["entry"], tuple(j["params"]))] = j["wall_s"]
except Exception: pass
jobs = [(j, list(ps), 1 - i % 2) for j in c["jobs"] for i, ps in enumerate(j.get("q", [[]]))]; jobs.sort(key=lambda a: ev.get((a[0]["entry"], tuple(a[1])), 5)); hs = sorted({j["h"] for j, _, _ in jobs})
check.build_engine(); base = check.Build(); base.start(hs, native=False); basebc = {h: base.link_guest(h) for h in hs}
def digest(bc, tmp):
    subprocess.check_call(["opt-18", "-passes=strip-dead-prototypes", "--strip-debug", bc, "-o", tmp + ".s.bc"]); t = subprocess.run(["llvm-dis-18", tmp + ".s.bc", "-o", "-"], stdout=subprocess.PIPE).stdout; os.unlink(tmp + ".s.bc")
    return hashlib.md5(b"\n".join(x for x in t.split(b"\n") if not x.startswith((b"; ModuleID", b"source_filename", b"!")))).hexdigest()
bd = {h: digest(basebc[h], "/tmp/mutb_" + h) for h in hs}
HDR = re.compile(r"include/stxxl/(bits/(containers|algo|stream|parallel)/)")
def run1(w):
    k, (f, i, new) = w; d = "/tmp/mut/%s/%d" % (pid, k); os.makedirs(d, exist_ok=True)
    try:
        lines = open(BASE + "/" + f).read().split("\n"); old = lines[i]; lines[i] = new; tag = "%s:%d: %s  ==>  %s" % (f.replace("include/stxxl/bits/", ""), i + 1, old.strip(), new.strip())
        # mutated file shadows the original through an earlier include directory or as a replaced source
        bcs = {}
        try:
            if f.startswith("include/"):
                p = d + "/" + f; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write("\n".join(lines)); inc = ["-I" + d + "/include"] + base.inc
                # library sources include some headers; recompile them unless the header belongs to the user level
                libs = base.lb
                if HDR.match(f): lbc = [x.result() for x in libs]
                else:
                    lbc = []
                    for s in check.libsources():
                        o = d + "/" + os.path.basename(s) + ".bc"; check.must(check.GUEST + inc + [s, "-o", o], "x"); lbc.append(o)
                for h in hs:
                    o = d + "/%s.h.bc" % h; check.must(check.GUEST + inc + [V + "/harness/%s.cpp" % h, "-o", o], "x"); bcs[h] = d + "/%s.l.bc" % h; check.must(["llvm-link-18"] + lbc + [x.result() for x in base.rt] + [o, "-o", bcs[h]], "x")
            else:
                p = d + "/" + os.path.basename(f); open(p, "w").write("\n".join(lines)); o = d + "/m.bc"; check.must(check.GUEST + base.inc + ["-I" + os.path.dirname(BASE + "/" + f), p, "-o", o], "x")
                lbc = [o if os.path.basename(s) == os.path.basename(f) else x.result() for s, x in zip(check.libsources(), base.lb)]
                for h in hs: bcs[h] = d + "/%s.l.bc" % h; check.must(["llvm-link-18"] + lbc + [x.result() for x in base.rt] + [base.hb[h].result(), "-o", bcs[h]], "x")
        except check.BuildError as e: return "nocompile", tag, ""
        if all(digest(bcs[h], d + "/" + h) == bd[h] for h in hs): return "same", tag, ""
        covers = {}; t0 = time.time()
        for j, ps, mf in jobs:
            o = d + "/o.json"; lim = max(60, 6 * ev.get((j["entry"], tuple(ps)), 10))
            cmd = [check.SYMX, bcs[j["h"]], "--entry", j["entry"], "--out", o, "--timeout", str(int(lim)), "--samples", "0", "--seed", "1", "--max-viol", "1", "--max-steps", str(j.get("steps", 60000000)), "--max-mem", "3500", "--solver-timeout", "30000"]
            for p in ps: cmd += ["--param", str(p)]
            if mf: cmd.append("--main-first")
            try: rc, txt = check.run(cmd, timeout=lim + 60)
            except subprocess.TimeoutExpired: return "timeout", tag, j["entry"] + str(ps)
            if rc not in (0, 1) or not os.path.exists(o): return "enginefail", tag, txt[-200:]
            r = json.load(open(o))
            if r["violations"]: v = r["violations"][0]; return "killed", tag, "%s%s %s %s" % (j["entry"], ps, v["kind"], v["msg"].split("\n")[0][:60])
            covers.setdefault(j["entry"], [j, set()])[1].update(r["covers"])
        for e, (j, got) in covers.items():
            if any(x not in got for x in j.get("covers", ["end"])): return "uncovered", tag, e
        return "SURVIVED", tag, "%.0fs" % (time.time() - t0)
    finally: shutil.rmtree(d, ignore_errors=True)
cnt = {}; done = 0; k = 0
print("# %s: %d candidates in %d files, %d jobs" % (pid, total, len(files), len(jobs)), flush=True)
with ThreadPoolExecutor(PAR) as ex:
    it = iter(enumerate(allc)); fut = set()
    import concurrent.futures as cf
    stop = False
    while True:
        while not stop and len(fut) < PAR:
            try: fut.add(ex.submit(run1, next(it)))
            except StopIteration: stop = True
        if not fut: break
        dn, fut = cf.wait(fut, return_when=cf.FIRST_COMPLETED)
        for x in dn:
            try: st, tag, info = x.result()
            except Exception as e: st, tag, info = "error", "", str(e)[:200]
            cnt[st] = cnt.get(st, 0) + 1
            if st not in ("killed", "same", "nocompile"): print(st, tag, "|", info, flush=True)
            elif A.get("--all"): print(st, tag, "|", info, flush=True)
            if st not in ("same", "nocompile"): done += 1
        if done >= N: stop = True
print("#", pid, cnt, flush=True)

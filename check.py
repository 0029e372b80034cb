#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current tree.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY[:CASE]] [--keep]
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, shlex, tempfile, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SYMX = os.path.join(BUILD, "symx")
CLANGXX = "/usr/lib/llvm-18/bin/clang++"; CLANG = "/usr/lib/llvm-18/bin/clang"; LINK = "/usr/lib/llvm-18/bin/llvm-link"; OPT = "/usr/lib/llvm-18/bin/opt"
GXX = "g++-12"; GCC = "gcc-12"
NCPU = max(2, min(16, os.cpu_count() or 4))
IRFLAGS = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics", "-fno-builtin", "-DNDEBUG=1", "-w", "-gline-tables-only", "-emit-llvm", "-c", "-U_FORTIFY_SOURCE", "-fno-discard-value-names"]
NFLAGS = ["-std=c++14", "-Os", "-g0", "-DNDEBUG=1", "-fno-threadsafe-statics", "-fno-enforce-eh-specs", "-w", "-c"]
SANFLAGS = ["-std=c++14", "-O1", "-g1", "-DNDEBUG=1", "-fno-threadsafe-statics", "-fno-enforce-eh-specs", "-w", "-c", "-fsanitize=address,shift-exponent,integer-divide-by-zero,unreachable,return", "-fno-sanitize-recover=all"]
WRAPS = ["malloc", "calloc", "realloc", "free", "__cxa_allocate_exception", "__cxa_free_exception"]
QUICK_BUDGET = 780.0
THOROUGH_BUDGET = float(os.environ.get("VERIF_THOROUGH_S", "3600"))

class CheckError(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout

def parse_harness(path):
    h = {"path": path, "entries": [], "wraps": [], "flags": []}
    for l in open(path):
        if not l.startswith("//@"): continue
        d = {}
        for tok in shlex.split(l[3:]):
            k, _, v = tok.partition("="); d[k] = v
        if "property" in d: h["property"] = d["property"]
        if "wraps" in d: h["wraps"] = d["wraps"].split(",")
        if "flags" in d: h["flags"] = d["flags"].split(",")
        if "entry" in d: h["entries"].append(d)
        if "trusted" in d: h.setdefault("assume", []).append(d["trusted"])
        if "outside" in d: h.setdefault("assume", []).append("outside the claim: " + d["outside"])
    return h

def caselist(s):
    r = []
    for p in (s or "0").split(","):
        a, _, b = p.partition("-"); r += list(range(int(a), int(b or a) + 1))
    return r

def config_inc(out):
    """config.h is generated by configure and not tracked: make one outside the tree when it is missing."""
    if os.path.exists(os.path.join(REPO, "config.h")): return []
    d = os.path.join(out, "cfg"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ("configure", "config.h.in", "Config.mk.in", "ustl.pc.in"): shutil.copy(os.path.join(REPO, f), d)
    rc, o = sh(["./configure", "--builddir=_build"], cwd=d)
    if not os.path.exists(os.path.join(d, "config.h")): raise CheckError("configure failed: " + o[-500:])
    return ["-I" + d]

def build(prop, harnesses, out, need_san):
    inc = config_inc(out)
    libs = sorted(glob.glob(os.path.join(REPO, "*.cc")))
    hh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "*.h")) + glob.glob(os.path.join(HERE, "rt", "*.h")) + glob.glob(os.path.join(HERE, "harness", "*.h"))):
        hh.update(f.encode()); hh.update(open(f, "rb").read())
    cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    hdr = hh.hexdigest()
    def comp(tool, flags, src, ext, extra=()):
        flags = list(flags) + list(extra)
        k = hashlib.sha256((hdr + tool + " ".join(flags) + src).encode() + open(src, "rb").read()).hexdigest()[:32]
        o = os.path.join(cache, k + ext)
        if os.path.exists(o): return o
        t = o + ".%d.tmp" % os.getpid()
        rc, msg = sh([tool] + flags + inc + ["-I" + REPO, "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness"), src, "-o", t])
        if rc: raise CheckError("cannot compile %s with %s:\n%s" % (src, tool, msg[-3000:]))
        os.rename(t, o); return o
    jobs = []
    ents = [e["entry"] for h in harnesses for e in h["entries"]]
    with open(os.path.join(out, "entries.inc"), "w") as f:
        for e in ents: f.write("void %s (int);\n" % e)
        f.write("static struct { const char* n; void (*f)(int); } entries[] = {%s{0,0}};\n" % "".join('{"%s",%s},' % (e, e) for e in ents))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        hs = [h["path"] for h in harnesses]; hf = {h["path"]: h["flags"] for h in harnesses}
        # longest first
        ir_h = [ex.submit(comp, CLANGXX, IRFLAGS + hf[s], s, ".bc") for s in hs]
        n_h = [ex.submit(comp, GXX, NFLAGS + hf[s], s, ".o") for s in hs]
        ir_l = [ex.submit(comp, CLANGXX, IRFLAGS, s, ".bc") for s in libs]
        n_l = [ex.submit(comp, GXX, NFLAGS, s, ".o") for s in libs]
        s_h = [ex.submit(comp, GXX, SANFLAGS + hf[s], s, ".so.o") for s in hs] if need_san else []
        s_l = [ex.submit(comp, GXX, SANFLAGS, s, ".so.o") for s in libs] if need_san else []
        rt = ex.submit(comp, CLANG, ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-w", "-emit-llvm", "-c"], os.path.join(HERE, "rt", "rt.c"), ".bc")
        wraps = WRAPS + [w for h in harnesses for w in h["wraps"]]
        wl = ["-Wl," + ",".join("--wrap=" + w for w in sorted(set(wraps)))]
        res = {}
        def link_native(hobjs, lobjs, name, san):
            nat = os.path.join(out, name + "_rt.o")
            rc, m = sh([GCC, "-O1", "-w", "-c", "-I" + out, os.path.join(HERE, "rt", "native.c"), "-o", nat] + (["-DSANITIZE"] if san else []))
            if rc: raise CheckError("native runtime: " + m)
            exe = os.path.join(out, name)
            rc, m = sh([GCC, "-o", exe] + hobjs + lobjs + [nat] + wl + (["-fsanitize=address,undefined"] if san else []) + ["-lsupc++", "-lm"])
            if rc: raise CheckError("cannot link %s: %s" % (name, m[-3000:]))
            return exe
        bcs = [f.result() for f in ir_h] + [f.result() for f in ir_l] + [rt.result()]
        def link_ir():
            a = os.path.join(out, "all.bc"); b = os.path.join(out, "opt.bc")
            rc, m = sh([LINK] + bcs + ["-o", a])
            if rc: raise CheckError("llvm-link: " + m[-2000:])
            rc, m = sh([OPT, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce", "-internalize-public-api-list=" + ",".join(ents + re.findall(r"\bsymx_\w+", open(os.path.join(HERE, "rt", "rt.c")).read()) + ["__wrap_" + w for h in harnesses for w in h["wraps"]]), a, "-o", b])
            if rc: raise CheckError("opt: " + m[-2000:])
            return b
        keep = None
        fi = ex.submit(link_ir)
        fn = ex.submit(lambda: link_native([f.result() for f in n_h], [f.result() for f in n_l], "native", False))
        fs = ex.submit(lambda: link_native([f.result() for f in s_h], [f.result() for f in s_l], "native_san", True)) if need_san else None
        return fi.result(), fn.result(), (fs.result() if fs else None)

class Native:
    def __init__(self, exe): self.exe = exe
    def run(self, entry, case, vecs, tmo=10, env=None, pre=()):
        inp = "".join(" ".join(map(str, v)) + " \n" for v in vecs)
        e = dict(os.environ); e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=77"}); e.update(env or {})
        r = subprocess.run(list(pre) + [self.exe, entry, str(case), str(tmo)], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        return [self.parse(x) for x in self.split(r.stdout.decode("latin1"))], r.stderr.decode("latin1")
    @staticmethod
    def split(t):
        res, cur = [], []
        for l in t.split("\n"):
            if l.startswith("@"): res.append((" ".join(cur), l[1:])); cur = []
            elif l: cur.append(l)
        return res
    @staticmethod
    def parse(x):
        obs, st = x; k, _, m = st.partition(" ")
        return {"obs": re.findall(r"\d+", obs), "status": k, "msg": m.strip()}

def confirm(v, entry, case, native, get_san):
    """Replays a counterexample against the real code; returns how it fails there, or None."""
    ins = v["inputs"]
    r, err = native.run(entry, case, [ins], tmo=20)
    st = r[0] if r else {"status": "CRASH", "msg": "no result", "obs": []}
    if st["status"] == "ASSERT" and (v["kind"] == "assert" or True): return "real build (g++-12 -Os): assertion fails: " + st["msg"]
    if st["status"] == "CRASH": return "real build (g++-12 -Os): crash, signal " + st["msg"]
    if st["status"] == "HANG": return "real build (g++-12 -Os): does not terminate within 20 s"
    if v["kind"] == "hang": return None
    if v["kind"] == "asm": return "constraint list and instructions of the asm statement the compiler was given disagree: its neighbours may be miscompiled"
    san = get_san()
    for opt in ({}, {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:max_malloc_fill_size=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}):
        r, err = san.run(entry, case, [ins], tmo=60, env=opt)
        st = r[0] if r else {"status": "CRASH", "msg": "no result"}
        if st["status"] in ("CRASH", "ASSERT", "HANG") and not (v["kind"] == "assert" and st["status"] == "CRASH" and "runtime error" in err):
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", err)
            return "sanitized real build: " + (m.group(1) if m else st["status"] + " " + st["msg"])
    if shutil.which("valgrind"):
        try:
            p = subprocess.run(["valgrind", "-q", "--error-exitcode=88", "--leak-check=no", "--expensive-definedness-checks=yes", native.exe, entry, str(case), "300", "direct"], input=(" ".join(map(str, ins)) + " \n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            if p.returncode == 88:
                m = re.search(r"== (Invalid [^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*)", p.stderr.decode("latin1"))
                return "real build under valgrind: " + (m.group(1) if m else "memory error")
        except subprocess.TimeoutExpired: pass
    return None

def load_known(prop):
    known = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith("{"): continue		# comments and "fixed:" lines
            d = json.loads(l)
            if d.get("property") == prop and d.get("status") == "known": known.append(d)
    return known
def match_known(known, v, entry, case):
    for k in known:
        m = k["match"]
        if m.get("entry") and m["entry"] != entry: continue
        if "case" in m and m["case"] != case: continue
        if m.get("kind") and m["kind"] != v["kind"]: continue
        if m.get("msg") and not re.search(m["msg"], v["msg"]): continue
        if m.get("site") and not re.search(m["site"], v["site"] + " | " + v["stack"]): continue
        return k
    return None

def main():
    t0 = time.time()
    args = sys.argv[1:]; prop = args[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i+1]; i += 1
        elif args[i] == "--only": only = args[i+1]; i += 1
        elif args[i] == "--keep": keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    hs = [parse_harness(p) for p in sorted(glob.glob(os.path.join(HERE, "harness", "*.cc")))]
    hs = [h for h in hs if h.get("property") == prop]
    if not hs: raise CheckError("no harness for " + prop)
    if not os.path.exists(SYMX):
        rc, o = sh(["make", "-C", os.path.join(HERE, "engine")]);
        if rc: raise CheckError("engine build failed: " + o[-2000:])
    out = os.path.join(BUILD, "run", prop); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    bc, nat, _ = build(prop, hs, out, False)
    tb = time.time() - t0
    native = Native(nat); san_box = []
    def get_san():
        if not san_box: san_box.append(Native(build(prop, hs, out, True)[2]))
        return san_box[0]
    jobs = []
    for h in hs:
        for e in h["entries"]:
            cs = caselist(e.get("cases")) if e.get("tier", "quick") == "quick" else []
            if tier == "thorough": cs = sorted(set(cs + (caselist(e["tcases"]) if "tcases" in e else []) + (caselist(e.get("cases")) if e.get("tier") == "thorough" else [])))
            for c in cs:
                if only and only not in (e["entry"], "%s:%d" % (e["entry"], c)): continue
                jobs.append((e, c))
    # token pool shared by all engine processes
    rfd, wfd = os.pipe(); os.set_inheritable(rfd, True); os.set_inheritable(wfd, True); os.set_blocking(rfd, False)
    os.write(wfd, b"t" * NCPU)
    deadline = t0 + budget * 0.8
    running = []; pending = list(jobs); done = []
    def start(job):
        e, c = job; log = os.path.join(out, "%s.%d.log" % (e["entry"], c))
        cmd = [SYMX, bc, "--entry=" + e["entry"], "--arg=%d" % c, "--log=" + log, "--deadline=%f" % deadline, "--tokens=%d,%d" % (rfd, wfd)]
        if "max_steps" in e: cmd.append("--max-steps=" + e["max_steps"])
        p = subprocess.Popen(cmd, pass_fds=(rfd, wfd), stdout=open(log + ".out", "w"), stderr=subprocess.STDOUT)
        running.append((p, job, log, time.time()))
    errors = []
    while pending or running:
        for r in list(running):
            p, job, log, ts = r
            if p.poll() is not None:
                running.remove(r); done.append((job, log, p.returncode, time.time() - ts))
                if p.returncode < 0: os.write(wfd, b"t")
        while pending:
            try: tok = os.read(rfd, 1)
            except BlockingIOError: break
            if not tok: break
            start(pending.pop(0))
        if running and time.time() > deadline + 60:
            for r in running: r[0].kill()
        time.sleep(0.01)
    texp = time.time() - t0 - tb
    # collect
    T = {k: 0 for k in ("paths", "ok", "steps", "viol", "incomplete", "assumed", "asserts", "forks", "branches", "queries", "solved", "sat", "unsat", "unknown", "modelhits", "cachehits")}
    solver_s = 0.0; fns = set(); per = []; viols = []; allpaths = []
    for job, log, rc, wall in sorted(done, key=lambda d: (d[0][0]["entry"], d[0][1])):
        e, c = job; reach = {}; jp = 0; jq = 0; paths = []; gotstat = False; ji = 0
        if not os.path.exists(log): errors.append("%s:%d: engine produced nothing (rc %d): %s" % (e["entry"], c, rc, open(log + ".out").read()[-400:])); continue
        for l in open(log, errors="replace"):
            try: d = json.loads(l)
            except ValueError: errors.append("bad log line in " + log); continue
            if d["t"] == "stat":
                gotstat = True
                for k in T: T[k] += d.get(k, 0)
                solver_s += d["solver_s"]; fns.update(d["fns"]); jp += d["paths"]; jq += d["queries"]
                for k, v in d["reach"].items(): reach[k] = reach.get(k, 0) + v
            elif d["t"] == "viol": viols.append((e["entry"], c, d))
            elif d["t"] == "inc":
                ji += 1
                if ji <= 3: errors.append("%s:%d: %s at %s inputs %s" % (e["entry"], c, d["why"], d.get("stack", "")[:400], d.get("inputs")))
            elif d["t"] == "path": paths.append(d)
        if rc or not gotstat: errors.append("%s:%d: engine exit %d %s" % (e["entry"], c, rc, open(log + ".out").read()[-400:]))
        if not paths and not any(v[0] == e["entry"] and v[1] == c for v in viols): errors.append("%s:%d: vacuous, no path reaches the end" % (e["entry"], c))
        for want in [w for w in e.get("reach", "").split(",") if w]:
            wc, _, wl = want.partition(":")
            if wl and wc != str(c): continue
            if not reach.get(wl or wc): errors.append("%s:%d: reachability witness %s not reached" % (e["entry"], c, want))
        per.append({"entry": e["entry"], "case": c, "bound": e.get("bound", ""), "paths": jp, "completed_paths": len(paths), "queries": jq, "wall_s": round(wall, 2), "reach": reach})
        allpaths.append((e["entry"], c, paths))
    # replay of explored paths on the real build: translator validation
    validated = 0; samples = []; mism = []
    cap = 400 if tier == "quick" else 4000
    def replay(t):
        entry, c, paths = t
        if len(paths) > cap:
            step = len(paths) / cap; ps = [paths[int(k*step)] for k in range(cap)]
        else: ps = paths
        if not ps: return entry, c, [], []
        r, err = native.run(entry, c, [p["inputs"] for p in ps])
        return entry, c, ps, r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for entry, c, ps, r in ex.map(replay, allpaths):
            if len(r) != len(ps): errors.append("%s:%d: native replay gave %d results for %d paths" % (entry, c, len(r), len(ps)))
            for p, q in zip(ps, r):
                if q["status"] == "OK" and q["obs"] == [str(o) for o in p["obs"]]: validated += 1
                else: mism.append((entry, c, p, q))
            if ps and len(samples) < 40:
                for p in (ps[0], ps[-1]): samples.append({"entry": entry, "case": c, "solver_chosen_inputs": p["inputs"][:40], "observed": p["obs"][:40], "instructions": p["steps"]})
    for entry, c, p, q in mism[:5]:
        errors.append("%s:%d: engine and real build disagree for inputs %s: engine obs %s, native %s %s obs %s" % (entry, c, p["inputs"], p["obs"], q["status"], q["msg"], q["obs"]))
    # violations
    known = load_known(prop); confirmed = []; seen = {}; knownhit = {}; unconf = []
    rdir = os.path.join(HERE, "out", prop); shutil.rmtree(rdir, ignore_errors=True)
    for entry, c, v in viols:
        key = (entry, v["kind"], v["msg"], v["site"] if v["kind"] != "assert" else "")
        if key in seen and seen[key] >= 1: continue
        k = match_known(known, v, entry, c)
        how = confirm(v, entry, c, native, get_san) if len(confirmed) < 5 else None
        if how is None:
            if len(confirmed) < 5: unconf.append((entry, c, v))
            continue
        seen[key] = 1
        if k: knownhit[k["id"]] = k; continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s_%d_%d.json" % (entry, c, len(confirmed)))
        json.dump({"property": prop, "entry": entry, "case": c, "kind": v["kind"], "what": v["msg"], "site": v["site"], "stack": v["stack"], "inputs": dict(enumerate(zip(v["names"], v["inputs"]))), "input_vector": v["inputs"], "real_code": how, "reproduce": "python3 %s/check.py %s --only %s:%d" % (HERE, prop, entry, c)}, open(rp, "w"), indent=1)
        confirmed.append((rp, entry, c, v, how))
    for entry, c, v in unconf:
        if (entry, v["kind"], v["msg"], v["site"] if v["kind"] != "assert" else "") in seen: continue
        errors.append("%s:%d: counterexample does not reproduce on the real build: %s: %s [%s] inputs %s" % (entry, c, v["kind"], v["msg"], v["stack"][:300], v["inputs"]))
    demang = sh(["c++filt"], input="\n".join(sorted(fns)))[1].split("\n") if fns else []
    libf = sorted({d for d in demang if "ustl::" in d or d.startswith("operator")})
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(confirmed),
          "assumptions": sorted({a for h in hs for a in h.get("assume", [])}) + ["bounds per entry are listed under coverage.entries; nothing outside them is claimed", "libc is replaced by the models in rt/rt.c and engine/builtins.inc, inline assembly by engine/asm.inc; both are cross-checked by replaying explored paths on the real g++-12 build"],
          "coverage": {"states": T["paths"], "transitions": T["steps"], "traces_validated_against_impl": validated, "samples": samples, "meaning": "states = symbolic execution paths (each stands for every input satisfying its path condition), transitions = LLVM instructions executed symbolically, traces_validated_against_impl = explored paths whose solver-chosen inputs gave the same observations on the real build",
            "completed_paths": T["ok"], "pruned_by_assumption": T["assumed"], "assertions_checked": T["asserts"], "symbolic_branches": T["branches"], "solver_queries": T["queries"], "queries_sent_to_z3": T["solved"], "sat": T["sat"], "unsat": T["unsat"], "unknown": T["unknown"], "answered_by_path_model": T["modelhits"], "answered_by_cache": T["cachehits"], "solver_s": round(solver_s, 3), "build_s": round(tb, 2), "explore_s": round(texp, 2),
            "functions_encoded": len(libf), "functions": libf[:600], "entries": per, "incomplete": T["incomplete"], "complete_within_bounds": not errors, "errors": errors[:10], "known_findings_seen": sorted(knownhit)}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d entries/cases, %d paths (%d complete), %d instructions, %d queries (%d to z3, %.1fs), %d asserts, %d replays agree, build %.1fs explore %.1fs total %.1fs" % (prop, tier, len(per), T["paths"], T["ok"], T["steps"], T["queries"], T["solved"], solver_s, T["asserts"], validated, tb, texp, wall))
    if only or os.environ.get("VERIF_PER"):
        for p in per: print("  %(entry)s:%(case)d paths=%(paths)d ok=%(completed_paths)d q=%(queries)d %(wall_s).1fs reach=%(reach)s" % p)
    for k in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in known:
        if k["id"] not in knownhit: print("note: known finding %s was not seen in this run" % k["id"])
    for rp, entry, c, v, how in confirmed:
        print("%s:%d %s: %s\n   at %s\n   inputs %s\n   %s" % (entry, c, v["kind"], v["msg"], v["stack"][:300], " ".join("%s=%s" % z for z in zip(v["names"], v["inputs"]))[:300], how))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for e in errors[:4 if confirmed else 8]: print("ERROR: " + e[:700])
    if len(errors) > 8: print("ERROR: ... %d in all" % len(errors))
    if not keep and not confirmed and not errors: shutil.rmtree(out, ignore_errors=True)
    return 1 if confirmed else 2 if errors else 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e: print("ERROR: " + str(e)); sys.exit(2)

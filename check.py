#!/usr/bin/env python3
"""Decides one property of PX4-Avoidance by symbolic execution of the compiled sources in /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] [-v]

The harness /verif/harness/PROPERTY.cpp states the property as assertions over symbolic inputs.  The repository's
sources (as they are in /repo now) and the harness are compiled to LLVM bitcode against the environment model in
/verif/stubs and executed by /verif/engine (symex): an SMT solver decides every branch and assertion.  A model of a
violated assertion is replayed against a native, sanitised build of the same sources before it is reported.
exit 0: property held on everything explored; 1: VIOLATION; 2: the check could not be built or run.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
INC = ["-I" + os.path.join(VERIF, "engine/include"), "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "harness")] + \
      ["-I%s/%s/include" % (REPO, p) for p in ("avoidance", "local_planner", "safe_landing_planner", "global_planner")] + ["-I/usr/include/eigen3"]
COMMON = ["-std=c++14", "-gline-tables-only", "-w", "-fno-access-control", "-DDISABLE_SIMULATION", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE",
          "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-ffp-contract=off", "-fno-math-errno"] + INC
BCFLAGS = ["-O1", "-fno-pie", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
SANFLAGS = ["-O1", "-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SANENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
SHORT = {"avoidance": "avoidance/src", "lp": "local_planner/src", "slp": "safe_landing_planner/src", "gp": "global_planner/src"}

def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, "", "timeout"

def die(msg):
    print("CHECK-ERROR: " + msg); sys.exit(2)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    eng = os.path.join(VERIF, "engine")
    jobs = []
    rc, o, e = run(["make", "-j4", "-C", eng, "OUT=" + BUILD])
    if rc: die("engine build failed\n" + e[-3000:])
    lock.close()

def parse_harness(path):
    """directives: '//! key=value ...' for the file, '//@ key=value ...' before an entry"""
    txt = open(path).read(); opts = {"src": []}; entries = []; cur = {}
    for line in txt.splitlines():
        m = re.match(r"//!\s*(.*)", line)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition("=")
                if k == "src": opts["src"] += [x for x in v.split(",") if x]
                else: opts[k] = v
            continue
        m = re.match(r"//@\s*(.*)", line)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition("="); cur[k] = v
            continue
        m = re.match(r"\s*(?:HARNESS|ENTRY\w*\()\s*(\w+)", line)
        if m:
            entries.append({"name": m.group(1), "opts": cur, "covers": [], "line": 0}); cur = {}
        if entries:
            entries[-1]["covers"] += re.findall(r'sym_cover\("([^"]+)"\)', line)
    return opts, entries

def src_path(s):
    pkg, _, rest = s.partition("/")
    return os.path.join(REPO, SHORT[pkg], rest)

def all_sources(opts):
    return [src_path(s) for s in opts["src"]]

def extra_sources(srcs):
    """other sources next to the listed ones (used when a symbol is missing after a refactoring)"""
    out = []
    for d in sorted({os.path.dirname(s) for s in srcs}):
        for f in sorted(glob.glob(d + "/*.cpp")):
            if f not in srcs and not f.endswith("_main.cpp") and "mock_data" not in f: out.append(f)
    return out

class Check:
    def __init__(self, pid, tier, only, verbose):
        self.pid, self.tier, self.only, self.verbose = pid, tier, only, verbose
        self.harness = os.path.join(VERIF, "harness", pid + ".cpp")
        self.opts, ents = parse_harness(self.harness)
        self.entries = [e for e in ents if (e["opts"].get("tier", "quick") == "quick" or tier == "thorough") and e["opts"].get("tier") != "never" and (tier == "quick" or e["opts"].get("tier") != "quickonly")]
        if only: self.entries = [e for e in ents if e["name"] in only]
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.native = self.san = None
        self.t0 = time.time()

    def cc(self, srcs, flags, suffix):
        def one(s):
            o = os.path.join(self.dir, hashlib.md5(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + suffix)
            if os.path.exists(o): return o, 0, ""
            rc, _, e = run(["clang++"] + flags + COMMON + (["-DTHOROUGH"] if self.tier == "thorough" else []) + [f for f in self.opts.get("cflags", "").split(",") if f] + ([] if s.startswith(VERIF) else ["-Dmain=repo_node_main_" if s.endswith("_main.cpp") else "-Dmain=repo_main_"]) + [s, "-o", o])
            return o, rc, e
        with cf.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, srcs))
        for (o, rc, e), s in zip(rs, srcs):
            if rc: die("cannot compile %s\n%s" % (s, e[-3000:]))
        return [r[0] for r in rs]

    def prepare(self):
        srcs = []
        for s in all_sources(self.opts):
            if os.path.exists(s): srcs.append(s)
            else: print("note: %s is gone; taking the other sources beside it" % s); srcs += [x for x in extra_sources([s]) if x not in srcs]
        self.srcs = srcs
        with cf.ThreadPoolExecutor(3) as ex:
            fe = ex.submit(build_engine)
            rtbc = os.path.join(self.dir, "runtime.bc")
            fr = ex.submit(run, ["clang++", "-std=c++14", "-O1", "-g1", "-emit-llvm", "-c", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", os.path.join(VERIF, "engine/runtime.cpp"), "-o", rtbc])
            bcs = self.cc(self.srcs + [self.harness], BCFLAGS, ".bc")
            rc, _, e = fr.result()
            if rc: die("runtime: " + e[-2000:])
            fe.result()
        self.bcs = bcs; self.rtbc = rtbc; self.nh = len(bcs) - 1
        self.link()
    def link(self):
        self.code_bc = os.path.join(self.dir, "code.bc"); self.x_bc = os.path.join(self.dir, "x.bc")
        rc, _, e = run(["llvm-link"] + (self.bcs[:self.nh] + self.bcs[self.nh + 1:] + ["--override=" + self.bcs[self.nh]] if len(self.bcs) > 1 else self.bcs) + ["-o", self.code_bc])  # a harness may stand in for a function
        if rc: die("link: " + e[-2000:])
        rc, _, e = run(["llvm-link", self.code_bc, self.rtbc, "-o", self.x_bc])
        if rc: die("link: " + e[-2000:])
        # repository symbols that a refactoring moved elsewhere
        rc, o, e = run(["llvm-nm-18" if shutil.which("llvm-nm-18") else "llvm-nm", "-C", "--undefined-only", self.x_bc])
        und = [l for l in o.splitlines() if re.search(r"\b(avoidance|global_planner|StarPlanner|LocalPlanner|Histogram)\b", l) and "std::" not in l.split("(")[0]]
        if und and not getattr(self, "extended", False):
            self.extended = True
            ext = extra_sources(self.srcs)
            if ext:
                more = []
                for s in ext:
                    o2 = os.path.join(self.dir, "x_" + os.path.basename(s) + ".bc")
                    rc, _, _ = run(["clang++"] + BCFLAGS + COMMON + ["-Dmain=repo_node_main_" if s.endswith("_main.cpp") else "-Dmain=repo_main_", s, "-o", o2])
                    if rc == 0: more.append((s, o2))
                # take those that define a missing symbol
                und_set = {l.split(" ", 1)[1] if " " in l else l for l in (x.strip() for x in und)}
                for s, o2 in more:
                    rc, o, _ = run(["llvm-nm-18" if shutil.which("llvm-nm-18") else "llvm-nm", "-C", "--defined-only", o2])
                    if any(u.lstrip("U ").strip() in o for u in und_set): self.bcs.append(o2); self.srcs.append(s)
                self.link()

    def build_native(self):
        if self.native: return
        self.native = os.path.join(self.dir, "native")
        rc, _, e = run(["clang++", "-O0", "-w", "-rdynamic", "-no-pie", self.code_bc, "-x", "c++", os.path.join(VERIF, "engine/native.cpp"), "-o", self.native, "-ldl", "-lpthread"])
        if rc: die("native build: " + e[-3000:])
    def build_san(self):
        if self.san: return
        os_ = self.cc([self.harness] + self.srcs, SANFLAGS + ["-c"], ".san.o")
        self.san = os.path.join(self.dir, "native_san")
        rc, _, e = run(["clang++"] + SANFLAGS + ["-w", "-rdynamic", "-Wl,--allow-multiple-definition"] + os_ + ["-x", "c++", os.path.join(VERIF, "engine/native.cpp"), "-o", self.san, "-ldl", "-lpthread"])
        if rc: die("sanitised build: " + e[-3000:])

    def run_entry(self, e):
        o = e["opts"]
        tmo = float(o.get("time", 60 if self.tier == "quick" else 300))
        if self.tier == "thorough": tmo = float(o.get("ttime", max(tmo * 4, 120)))
        out = os.path.join(self.dir, e["name"] + ".json")
        rd = os.path.join(self.dir, e["name"] + ".d"); os.makedirs(rd, exist_ok=True)
        cmd = [os.path.join(BUILD, "symex"), self.x_bc, "--entry", e["name"], "--out", out, "--replay-dir", rd, "--time", str(tmo), "--max-inst", o.get("max-inst", "30000000"), "--path-models", "3" if self.tier == "quick" else "10"]
        for k in ("branch-ms", "assert-ms", "max-paths"):
            if k in o: cmd += ["--" + k, o[k]]
        if "assert-ms" not in o: cmd += ["--assert-ms", "20000" if self.tier == "quick" else "120000"]
        if "args" in o: cmd += o["args"].split(",")
        if self.verbose: cmd += ["-v"] * self.verbose
        t = time.time(); rc, so, se = run(cmd, timeout=tmo + 150)
        if self.verbose: sys.stderr.write(se)
        try: r = json.load(open(out))
        except Exception:
            r = {"entry": e["name"], "status": "incomplete", "paths": 0, "forks": 0, "merges": 0, "instructions": 0, "solver": {"queries": 0, "z3calls": 0, "time": 0, "unsat": 0, "sat": 0, "unknown": 0}, "incomplete_why": ["engine rc=%d %s" % (rc, se[-300:])], "asserts": {}, "covers": {}, "functions": [], "violations": []}
        r["wall_s"] = time.time() - t
        r["path_replays"] = sorted(glob.glob(rd + "/*_path*.replay"))
        return r

    def replay(self, binary, entry, path, timeout=20):
        rc, so, se = run([binary, entry, path], timeout=timeout, env=SANENV, cwd=self.dir)
        return rc, se

    def confirmed(self, v, entry):
        """does the counterexample reproduce on the natively compiled, sanitised code?"""
        self.build_san()
        rc, se = self.replay(self.san, entry, v["replay"])
        if rc == -999: return True, "does not terminate within 20 s"
        if rc in (98, 99) or rc < 0: 
            m = re.search(r"(ASSERTION FAILED: .*|ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion '[^\n]*|terminate called[^\n]*)", se)
            return True, (m.group(1) if m else "exit %d" % rc)
        rc2, se2 = None, ""
        self.build_native()
        rc2, se2 = self.replay(self.native, entry, v["replay"])
        if rc2 == 99 or (rc2 < 0 and rc2 != -999): return True, se2.strip().splitlines()[-1] if se2.strip() else "signal %d" % -rc2
        return False, "native run ended with %s/%s" % (rc, rc2)

    def main(self):
        self.prepare()
        t1 = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            order = sorted(self.entries, key=lambda e: -float(e["opts"].get("time", 60)))
            fs = {e["name"]: ex.submit(self.run_entry, e) for e in order}
            fn = ex.submit(self.build_native)
            res = {n: f.result() for n, f in fs.items()}; fn.result()
        known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json"))).get("findings", []) if k["property"] == self.pid] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
        validated, mism, viols, knowns, notes = 0, [], [], [], []
        for e in self.entries:
            r = res[e["name"]]
            for p in r["path_replays"]:
                rc, se = self.replay(self.native, e["name"], p)
                if rc == 0: validated += 1
                else: mism.append("%s: path model ended natively with %s: %s" % (e["name"], rc, se.strip()[-200:]))
            for v in r["violations"]:
                if len(viols) >= 8 or (v["kind"] == "nontermination" and any(x[0] == e["name"] and x[1]["kind"] == "nontermination" for x in viols)): continue  # enough shown
                ok, how = self.confirmed(v, e["name"])
                if not ok:
                    notes.append("counterexample not reproduced natively (%s): %s %s" % (how, e["name"], v["msg"])); continue
                kf = next((k for k in known if k["entry"] == e["name"] and re.search(k["match"], v["kind"] + ": " + v["msg"])), None)
                if kf: knowns.append(kf); continue
                viols.append((e["name"], v, how))
            miss = [c for c in dict.fromkeys(e["covers"]) if not r["covers"].get(c)]
            if miss: notes.append("%s: not reached: %s" % (e["name"], ", ".join(miss)))
            if r["status"] in ("incomplete", "unknown"):
                unk = [m for m, a in r["asserts"].items() if a["unknown"]]
                notes.append("%s: %s %s %s" % (e["name"], r["status"], "; ".join(r["incomplete_why"])[:600], ("undecided: " + ", ".join(unk)) if unk else ""))
        # a path model that fails natively is a counterexample the compiled code itself shows
        out_dir = os.path.join(VERIF, "replays"); 
        for k in {json.dumps(k, sort_keys=True) for k in knowns}:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, json.loads(k)["what"]))
        rc = 0
        for n, (ent, v, how) in enumerate(viols):
            os.makedirs(out_dir, exist_ok=True)
            dst = os.path.join(out_dir, "%s_%d.replay" % (ent, n)); shutil.copy(v["replay"], dst)
            print("VIOLATION property=%s replay=%s" % (self.pid, dst)); print("  %s: %s: %s (replayed: %s)" % (ent, v["kind"], v["msg"], how)); print("  at " + v["where"][:500])
            rc = 1
        for m in mism: notes.append("executor/native mismatch: " + m)
        for n in notes: print("INCONCLUSIVE: " + n)
        self.evidence(res, validated, mism, viols, knowns, notes)
        tot = sum(r["solver"]["queries"] for r in res.values())
        print("%s %s: %d entries, %d proved, %d paths, %d queries, %d path models replayed, %.1fs (%.1fs build)" % (self.pid, self.tier, len(res), sum(r["status"] == "proved" for r in res.values()), sum(r["paths"] for r in res.values()), tot, validated, time.time() - self.t0, t1 - self.t0))
        if self.verbose or self.only:
            for n, r in res.items(): print("   %-32s %-10s %6d paths %6d queries %7.1fs" % (n, r["status"], r["paths"], r["solver"]["queries"], r["wall_s"]))
        return rc

    def evidence(self, res, validated, mism, viols, knowns, notes):
        funcs = sorted({f for r in res.values() for f in r["functions"]})
        samples = []
        for e in self.entries:
            for p in res[e["name"]]["path_replays"][:1]:
                samples.append({"entry": e["name"], "path_model": [l.strip() for l in open(p) if not l.startswith("#")][:40]})
        bounds = self.opts.get("bounds", "")
        txt = open(self.harness).read()
        b = [l[4:].strip() for l in txt.splitlines() if l.startswith("//# ")]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": sum(r["paths"] + r["forks"] for r in res.values()), "transitions": sum(r["instructions"] for r in res.values()), "traces_validated_against_impl": validated,
                           "samples": samples[:8] or ["no path completed"],
                           "functions_encoded": funcs, "bounds": b,
                           "queries_discharged": sum(r["solver"]["queries"] for r in res.values()), "solver_calls": sum(r["solver"]["z3calls"] for r in res.values()),
                           "solver_time_s": round(sum(r["solver"]["time"] for r in res.values()), 3), "solver_unsat": sum(r["solver"]["unsat"] for r in res.values()), "solver_sat": sum(r["solver"]["sat"] for r in res.values()),
                           "assertion_checks": sum(a["checks"] for r in res.values() for a in r["asserts"].values()), "assertions_proved": sum(a["proved"] for r in res.values() for a in r["asserts"].values()), "assertions_undecided": sum(a["unknown"] for r in res.values() for a in r["asserts"].values()),
                           "entries": {n: {"status": r["status"], "paths": r["paths"], "forks": r["forks"], "merges": r["merges"], "instructions": r["instructions"], "queries": r["solver"]["queries"], "solver_s": r["solver"]["time"], "wall_s": round(r["wall_s"], 2), "asserts": r["asserts"], "covers": r["covers"]} for n, r in res.items()},
                           "executor_native_mismatches": mism, "inconclusive": notes, "known_findings": [k["what"] for k in knowns]},
              "assumptions": ["environment model /verif/stubs (ROS, tf, PCL, octomap stand-ins)", "clang 18 -O1 bitcode of the current /repo sources; single-threaded execution of each entry unless the entry models a schedule"] + b,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viols)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)

def main():
    a = sys.argv[1:]; tier = "quick"; only = []; verbose = 0; pid = None; keep = False; i = 0
    while i < len(a):
        if a[i] == "--tier": i += 1; tier = a[i]
        elif a[i] == "--entry": i += 1; only.append(a[i])
        elif a[i] in ("-v", "-vv", "-vvv", "-vvvv"): verbose += len(a[i]) - 1
        elif a[i] == "--keep": keep = True
        elif a[i] == "--setup": build_engine(); return 0
        else: pid = a[i]
        i += 1
    c = Check(pid, tier, only, verbose)
    try: return c.main()
    finally:
        if not keep: shutil.rmtree(c.dir, ignore_errors=True)
        else: print("kept", c.dir)
sys.exit(main())

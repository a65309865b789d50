#!/usr/bin/env python3
"""tools/mutate.py FILE(relative to /repo) CHECKS(comma) [--func REGEX] [--max N] [--seed S] [--jobs J]
plants small changes (operators, constants, dropped statements) in scratch copies and reports which ones the checks miss"""
import sys, re, os, random, subprocess, shutil, argparse, concurrent.futures as cf
ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("checks"); ap.add_argument("--func", default="."); ap.add_argument("--max", type=int, default=30); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--skip", default="")
a = ap.parse_args(); R = "/repo"; src = open(os.path.join(R, a.file)).read().split("\n")
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\.x\b(\(\))?", [".y\\1"]), (r"\.y\b(\(\))?", [".x\\1"]), (r"\.z\b(\(\))?", [".x\\1"]), (r"\+=", ["-="]), (r"\+\+", ["--"]), (r"(?<![\w.])(\d+)\.(\d*)(f?)\b", ["NUM"]), (r"(?<![\w.\[<])(\d+)(?![\w.\]>])", ["INT"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"!(?=[a-z(])", [""])]
muts, func = [], ""
for n, l in enumerate(src):
    m = re.match(r"^(?:inline |static |template.*> ?)?[\w:<>,&\* ]*?([\w:~]+)\(.*", l)
    if m and not l.startswith(("}", "#", "//", " ")): func = m.group(1)
    if re.match(r"^  (?:inline |static )[\w:<>,&\* ]*?([\w:~]+)\(.*\{", l): func = re.match(r"^  (?:inline |static )[\w:<>,&\* ]*?([\w:~]+)\(", l).group(1)
    s = l.strip()
    if not s or s.startswith(("//", "*", "/*", "#", "ROS_", "<<", "std::cout", "using", "namespace", "}")) or "ROS_" in s or "printf" in s or not re.search(a.func, func) or (a.skip and re.search(a.skip, func)): continue
    code = l.split("//")[0]
    if '"' in code: code2 = re.sub(r'"[^"]*"', lambda m: "_" * len(m.group(0)), code)
    else: code2 = code
    for pat, reps in OPS:
        for m in re.finditer(pat, code2):
            for r in reps:
                if r == "NUM": v = float(m.group(0).rstrip("f")); t = repr(v * 1.25 + (0.1 if v == 0 else 0)) + m.group(3)
                elif r == "INT": t = str(int(m.group(0)) + 1)
                else: t = m.expand(r)
                if l.startswith(("for",)) : pass
                muts.append((n, l[:m.start()] + t + l[m.end():], func))
    if s.endswith(";") and not re.match(r"(return|break|continue|[\w:<>,&\* ]+ \w+( =.*|\(.*)?;$)", s) or re.match(r"[\w.\->\[\]_():]+ [+\-]?= .*;$", s):
        muts.append((n, re.match(r"\s*", l).group(0) + ";", func))
    mm = re.match(r"^(\s*(?:\} else )?if )\((.*)\) \{$", l)
    if mm: muts.append((n, mm.group(1) + "(true) {", func)); muts.append((n, mm.group(1) + "(false) {", func))
random.Random(a.seed).shuffle(muts); total = len(muts); muts = muts[:a.max]; muts.sort()
def one(k):
    n, new, fn = muts[k]; W = "/tmp/mut/%s_%d" % (re.sub(r"\W", "_", a.file), k)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W); subprocess.run("git -C /repo archive HEAD | tar -x -C " + W, shell=True, check=True)
    t = list(src); t[n] = new; open(os.path.join(W, a.file), "w").write("\n".join(t)); res = "MISSED"; tail = ""
    for c in a.checks.split(","):
        p = subprocess.run(["python3", "check.py"] + c.split("/")[:1] + sum((["--entry", e] for e in c.split("/")[1:]), []), cwd="/verif", env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1: res = "caught " + c; break
        if p.returncode == 2: res = "nobuild"; break
        inc = [x[:200] for x in p.stdout.splitlines() if x.startswith("INCONCL")]; tail += "; ".join(inc[:2])
    shutil.rmtree(W, ignore_errors=True); return k, res, tail
c = {}
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for k, res, tail in ex.map(one, range(len(muts))):
        c[res.split()[0]] = c.get(res.split()[0], 0) + 1
        if res == "MISSED": print("MISSED %s:%d [%s]\n   - %s\n   + %s %s" % (a.file, muts[k][0] + 1, muts[k][2], src[muts[k][0]].strip(), muts[k][1].strip(), tail and "\n   " + tail), flush=True)
print(a.file, a.checks, "of", total, c, flush=True)

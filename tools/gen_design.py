#!/usr/bin/env python3
"""puts DESIGN.md together"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = V + "/tools/design/"
o = open(D + "head.md").read()
for f in json.load(open(V + "/known_findings.json"))["fixed"]: o += "* " + f[len("fixed: "):] + "\n"
M = json.load(open(D + "methods.json"))
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
o += "\n## 5. The properties one by one\n\nStatements are in `properties.jsonl`. `not_applicable` is empty: each property is decided by the technique, within the bounds given.\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; t = open(V + "/harness/%s.cpp" % i).read().splitlines()
    o += "\n### %s %s\n\n%s\n\n" % (i, p["title"], M.get(i, ""))
    src = re.search(r"src=(\S+)", "\n".join(t[:5])); src = src.group(1).split(",") if src else ["headers only"]; o += "Encoded sources: %s and the headers they include.\n" % ", ".join("`%s`" % s for s in src)
    o += "\nBounds:\n" + "".join("* %s\n" % x[4:] for x in t if x.startswith("//# "))
    ent, opt = [], ""
    for x in t:
        if x.startswith("//@"): opt = x
        m = re.match(r"HARNESS (\w+)", x)
        if m:
            a = [k for k in ("--reals", "--exact") if k in opt] + (["thorough only"] if "tier=thorough" in opt else []); ent.append(m.group(1) + (" (%s)" % ", ".join(a) if a else "")); opt = ""
    o += "\nEntries: " + ", ".join(ent) + ".\n"
    if i in seeds: o += "\nPlanted changes (all reported by `check.py %s`): " % i + "; ".join("**%s** – %s (needs: %s)" % (n, m["what_it_breaks"], m["needs"]) for n, m in seeds[i]) + ".\n"
o += open(D + "tail.md").read()
open(V + "/DESIGN.md", "w").write(o); print(len(o), "bytes")

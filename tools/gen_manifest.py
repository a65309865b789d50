#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, harness/ and tools/not_applicable.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(V + "/tools/not_applicable.json"))
notes = json.load(open(V + "/tools/level_notes.json")) if os.path.exists(V + "/tools/level_notes.json") else {}
checks, nal = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; h = V + "/harness/%s.cpp" % i
    if i in na or not os.path.exists(h):
        nal.append({"property": i, "reason": na.get(i, "check not built yet")}); continue
    b = [x[4:].strip() for x in open(h).read().splitlines() if x.startswith("//# ")]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "bounded symbolic execution of the compiled sources (LLVM bitcode) with an SMT solver (Z3) deciding every branch and assertion; counterexamples replayed natively",
                   "level": "model_checking", "level_note": "Bounded: " + "; ".join(b)})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": nal,
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are used: the checks compile the unmodified sources", "source_commits": []}}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(nal), "not applicable")

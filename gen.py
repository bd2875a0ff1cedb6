#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from props.py
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as o:
    for i, p in sorted(PROPS.items()):
        o.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for i, p in sorted(PROPS.items()):
    if p.get("na"):
        na.append({"property": i, "reason": p["na"]})
        continue
    b = "; ".join("%s: %s" % (c["name"], c.get("bounds", "")) for c in p["cases"])
    checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver, counterexamples replayed natively", "level": "model_checking",
        "level_note": ("Bounded: the solver decides every path within the bounds; nothing is claimed outside them. Bounds: " + b + ". Trusts the executor (engine/), its libstdc++/libc models and Z3; every reported violation is reproduced on a native ASan build." + (" " + p["note"] if p.get("note") else ""))})
m = {"version": 1, "setup_cmd": "python3 -c 'import check; check.ensure_engine()'", "checks": checks, "not_applicable": na,
     "notes": "check.py drives everything; props.py lists properties and cases; DESIGN.md explains the technique. No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import glob
t = open(V + "/DESIGN.head.md").read()
t += "## Properties, bounds, oracles\n\n"
for i, p in sorted(PROPS.items()):
    t += "### %s %s\n\n" % (i, p["title"])
    if p.get("na"):
        t += "Not applicable: %s\n\n" % p["na"]
        continue
    t += "Code: " + ", ".join(p["files"]) + ".\n"
    if p.get("oracle"):
        t += "Oracle: " + p["oracle"] + "\n"
    t += "Beyond the tests: " + p["why"] + ".\n\n"
    for c in p["cases"]:
        t += "* case `%s` (harness/%s): %s.\n" % (c["name"], c["harness"], c.get("bounds", ""))
    for a in p.get("assumptions", []):
        t += "* assumption: " + a + ".\n"
    t += "\n"
t += "## Planted bugs\n\nEach was made from the property's text and the code, confirmed to build and to lose no stable test, with a demonstration\nthat fails on it. 'caught' means that the property's quick check exits 1 with its VIOLATION line.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
caught = json.load(open(V + "/caught.json")) if os.path.exists(V + "/caught.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    t += "| %s | %s | %s | %s |\n" % (n, j["property"], j["needs"].replace("|", "/").replace("\n", " "), caught.get(n, "?"))
f = V + "/DESIGN.tail.md"
if os.path.exists(f):
    t += "\n" + open(f).read()
if glob.glob(V + "/seeded/*/meta.json"):
    open(V + "/DESIGN.md", "w").write(t)

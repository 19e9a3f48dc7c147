#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py (a development tool; no check runs it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
from props import PROPS, NA
from checks import CHECKS
ps, ck, na = [], [], []
for p in PROPS:
    pid = p["id"]
    assert len(p["title"]) <= 80, p["title"]
    ps.append(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["obs"], hook_needed=None)))
    if pid in CHECKS:
        ck.append(dict(property=pid, quick_cmd="python3 run.py %s" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid,
                       technique="symbolic execution of the compiled code (LLVM IR, doubles as real terms) + z3", level="model_checking",
                       level_note="Holds for every value of the symbolic inputs within the stated bounds: " + CHECKS[pid]["bounds"] + " Assumes doubles are reals; trusts the instrumentation, the normal form and z3, cross-checked by native replay of path witnesses."))
    else: na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in ps))
m = dict(version=1, setup_cmd="python3 -c 'import os; os.makedirs(\"evidence/replay\", exist_ok=True)'", checks=ck, not_applicable=na, hooks=dict(guard="none", enable="no hooks are needed: the checks compile /repo's own sources unchanged through an LLVM instrumentation pass", source_commits=[]),
         notes="Every check rebuilds /repo's src/*.cpp from the working tree with clang-18, instruments the IR (engine/SymPass.cpp) and explores it symbolically (engine/symrt.cpp). See DESIGN.md. Known findings: known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in ps: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(ps), "properties", len(ck), "checks", len(na), "n/a")
except ImportError: print("no jsonschema; run with python3-vt")

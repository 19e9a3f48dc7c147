#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness natively from /repo and run it on the recorded inputs. exit 1 if the violation reproduces."""
import sys, json, tempfile, shutil, os, subprocess
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/engine")
import build as B
r = json.load(open(sys.argv[1])); h = r["harness"]; from checks import CHECKS; ck = CHECKS.get(r["property"]); src, defs = (h, []) if isinstance(h, str) else (h[0], h[1:])
t = tempfile.mkdtemp(prefix="verif-replay-")
try:
    _, ne = B.build(V + "/harness/" + src, t, defs, python=bool(ck and ck.get("python")), asan=bool(ck and ck.get("asan"))); json.dump(r["values"], open(t + "/v.json", "w"))
    p = subprocess.run([ne, t + "/v.json"], capture_output=True, text=True, errors="replace"); print("\n".join(l for l in p.stdout.splitlines() if not l.startswith("VAL"))); rc = p.returncode
finally: shutil.rmtree(t, ignore_errors=True)
sys.exit(1 if rc == 1 else 0)

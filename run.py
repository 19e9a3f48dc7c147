#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--keep]
Decide one property of /repo's current tree by symbolic execution of the compiled code (see DESIGN.md).
exit 0: holds on everything explored; 1: VIOLATION (reproduced natively); 2: no verdict."""
import os, sys, json, time, tempfile, shutil, subprocess, re, atexit
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/engine"); sys.path.insert(0, VERIF)
import build as B
from checks import CHECKS

def findings(pid):
    r = []
    f = VERIF + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\"\s*(.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def native(exe, vals, timeout=60):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False); json.dump(vals, f); f.close()
    try:
        p = subprocess.run([exe, f.name], capture_output=True, text=True, timeout=timeout, errors="replace"); out = p.stdout; rc = p.returncode
    except subprocess.TimeoutExpired:
        out = "FAIL native run does not terminate\n"; rc = 1
    os.unlink(f.name); return rc, out

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time(); C = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
    if "--keep" not in sys.argv: atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
    else: print("work dir", tmp)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", violations=0)
    tot = dict(paths=0, infeasible=0, queries=0, sat=0, unsat=0, unknown=0, obligations=0, normal_form=0, raw_unsat=0, raw_unknown=0, forks=0, interval=0, sampled_sat=0, generic=0, near=0, ops=0, solver_s=0.0)
    covered = set(); labels = set(); samples = []; validated = 0; boundary = 0; values_cmp = 0; problems = []; viols = []; known = set(); decisions = 0; notes = set(); maxvars = 0
    known_list = findings(pid)
    repdir = VERIF + "/evidence/replay"; os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"): os.unlink(repdir + "/" + f)
    def report(kind, hs, exe, msg, vals, out):
        for m, why in known_list:
            if m in msg:
                if m not in known: known.add(m); print("KNOWN-FINDING: property=%s %s" % (pid, msg))
                return
        if any(v["msg"] == msg for v in viols): return
        p = "%s/%s-%d.json" % (repdir, pid, len(viols) + 1)
        json.dump(dict(property=pid, harness=hs, what=msg, values=vals, native_output=out[-1500:], found_by=kind,
                       how="python3 %s/replay.py %s" % (VERIF, p)), open(p, "w"), indent=1)
        viols.append(dict(msg=msg, replay=p))
        print("VIOLATION property=%s replay=%s" % (pid, p)); print("  ", msg); sys.stdout.flush()
    if len(C["harness"]) > 1 and not B.CACHE: B.CACHE = tmp + "/units"   # within this run only: the library is compiled once for all its harnesses
    try:
        for hi, hs in enumerate(C["harness"]):
            if viols and tier == "quick" and time.time() - t0 > 240: break   # reported already
            src, defs = (hs, []) if isinstance(hs, str) else (hs[0], hs[1:])
            if tier == "thorough": defs = list(defs) + ["-DTHOROUGH=1"]
            w = "%s/h%d" % (tmp, hi); tb = time.time()
            se, ne = B.build(VERIF + "/harness/" + src, w, defs, python=C.get("python", False), asan=C.get("asan", False))
            build_s = time.time() - tb; od = w + "/paths"; os.makedirs(od)
            cfg = dict(maxpaths=4000, pathtime=120, total=500, raw=6); cfg.update(C.get(tier, {}))
            if tier == "thorough": cfg.setdefault("raw", 40)
            if tier == "quick": cfg["total"] = max(30, min(cfg["total"], 760 - (time.time() - t0)))
            te = time.time()
            try: p = subprocess.run([se, od, tier, str(seed), "8", str(cfg["maxpaths"]), str(cfg["pathtime"]), str(int(cfg["total"])), str(cfg["raw"])], capture_output=True, text=True, errors="replace", timeout=cfg["total"] + cfg["pathtime"] + 60)
            except subprocess.TimeoutExpired: problems.append("explorer did not finish in time"); continue
            info = open(od + "/paths.txt").read().split() if os.path.exists(od + "/paths.txt") else []
            if p.returncode or not info: problems.append("explorer failed: %s" % (p.stderr[-300:]))
            elif info[info.index("over") + 1] != "0": problems.append("exploration budget exhausted, %s paths left" % info[info.index("left") + 1])
            recs = []
            if "--keep" in sys.argv: print("explored in %.1fs" % (time.time() - te))
            for f in sorted(os.listdir(od)):
                if not f.endswith(".json"): continue
                try: recs.append(json.load(open(od + "/" + f)))
                except Exception as e: problems.append("unreadable path record %s" % e)
            nwit = 0; maxw = 40 if tier == "quick" else 400
            # native replay of path witnesses: spread over all paths, one per set of labels first, interior witnesses preferred
            cand = [r for r in recs if r.get("status") == "ok" and "witness" in r]; seen_l = set(); first = []; rest = []
            for r in sorted(cand, key=lambda r: -r.get("robust", 1)):
                l = " ".join(r["labels"]); (rest if l in seen_l else first).append(r); seen_l.add(l)
            rest = [r for r in rest if r.get("robust", 1)] or rest
            want = max(0, maxw - len(first)); step = max(1, len(rest) // want) if want else 1
            chosen = set(id(r) for r in first[:4 * maxw] + (rest[::step][:want] if want else []))
            if "--keep" in sys.argv:
                for r in sorted(recs, key=lambda r: -r.get("path_s", 1e9))[:12]: print("  slow %.1fs ops %s terms %s %s %s %s" % (r.get("path_s", -1), r.get("ops"), r.get("terms"), r["status"], r.get("decisions"), r.get("labels")))
            for r in recs:
                for k in tot:
                    if k in r: tot[k] += r[k]
                maxvars = max(maxvars, r.get("vars", 0)); decisions += len(r.get("decisions", []))
                covered.update(r.get("covered", [])); labels.update(r.get("labels", [])); notes.update(r.get("notes", []))
                st = r["status"]
                if st == "infeasible" or st == "discarded": tot["infeasible"] += 1; continue
                tot["paths"] += 1
                if st == "inconclusive": problems.append(r["msg"])
                elif st == "violation":
                    rc, out = native(ne, r["cex"])
                    fl = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
                    if rc == 1 and fl: report("solver", hs, ne, r["msg"] + " [" + fl[0] + "]" if fl[0] not in r["msg"] else r["msg"], r["cex"], out)
                    else: problems.append("counterexample does not reproduce natively (rc %d): %s | %s" % (rc, r["msg"], out[-200:]))
                elif st == "ok" and id(r) in chosen:
                    nwit += 1; rc, out = native(ne, r["witness"])
                    fl = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
                    if rc == 1 and fl: report("native replay of the path witness", hs, ne, fl[0], r["witness"], out); continue
                    if rc != 0: problems.append("native witness run failed rc=%d %s" % (rc, out[-200:])); continue
                    um = [l for l in out.splitlines() if l.startswith("UNMATCHED")]
                    nl = [l for l in out.splitlines() if l.startswith("LABELS")]
                    if nl and set(nl[0].split()[1:]) != set(" ".join(r["labels"]).split()):
                        if not r.get("robust", 1): boundary += 1; continue   # the only witnesses lie on the boundary of a branch condition: rounding picks the side
                        problems.append("native path differs from symbolic path: %s vs %s" % (nl[0], r["labels"]))
                    nv = {}
                    for l in out.splitlines():
                        if l.startswith("VAL\t"):
                            _, n, a, b = l.split("\t"); nv.setdefault(n, []).append((float(a), float(b)))
                    bad = 0; seen = {}
                    for n, a, b in r.get("values", []):
                        i = seen.get(n, 0); seen[n] = i + 1
                        if n in nv and i < len(nv[n]):
                            values_cmp += 1
                            for x, y in ((a, nv[n][i][0]), (b, nv[n][i][1])):
                                if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)): bad += 1
                    if bad: problems.append("native values differ from the symbolic terms (%d)" % bad)
                    else: validated += 1
                    if len(samples) < 4: samples.append(dict(path=r["decisions"], labels=r["labels"][:12], obligations=r["obligations"], witness={k: r["witness"][k] for k in list(r["witness"])[:12]}))
            ev.setdefault("build_s", []).append(round(build_s, 1)); ev.setdefault("explore_s", []).append(round(time.time() - te, 1))
    except B.BuildError as e:
        problems.append("build failed: " + str(e)[-1500:])
    miss = [l for l in C.get("labels", []) if l not in labels]
    if miss and not viols and not problems: problems.append("vacuity: never reached %s" % miss)
    if not viols and not problems and tot["obligations"] == 0: problems.append("vacuity: no obligations")
    cov = dict(states=tot["paths"], transitions=decisions, traces_validated_against_impl=validated, samples=samples or ["none"],
               obligations=tot["obligations"], discharged_by_normal_form_and_solver=tot["normal_form"], rows_equal_up_to_decimal_rounding=tot["near"], raw_encoding_unsat=tot["raw_unsat"], raw_encoding_unknown=tot["raw_unknown"],
               queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], sat_by_model_sampling=tot["sampled_sat"], branch_decided_by_interval=tot["interval"],
               solver_s=round(tot["solver_s"], 2), forks=tot["forks"], generic_disequalities_assumed=tot["generic"], infeasible_paths=tot["infeasible"], symbolic_inputs_max=maxvars,
               fp_operations_executed_symbolically=tot["ops"], operands_compared_with_native_run=values_cmp, boundary_witnesses_taking_another_branch_natively=boundary, labels=sorted(labels), functions_encoded=sorted(covered), bounds=C["bounds"],
               notes=sorted(notes)[:20], inconclusive=problems[:10], known_findings=sorted(known), exhaustive=not problems)
    ev.update(coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viols), assumptions=C.get("assumptions", []) + COMMON)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d paths, %d obligations, %d queries (%d unsat, %d sat, %d unknown), %.1fs solver, %d traces validated, %.1fs" % (pid, tier, tot["paths"], tot["obligations"], tot["queries"], tot["unsat"], tot["sat"], tot["unknown"], tot["solver_s"], validated, time.time() - t0))
    for p in problems[:10]: print("INCONCLUSIVE", p[:1500])
    if viols: return 1
    return 2 if problems else 0

COMMON = ["doubles are modelled as real numbers (no rounding, no overflow); decimal constants are read as the simplest rational within 1e-13",
          "clang 18 -O0 code generation, Eigen, libstdc++ and ndcurves are executed, not modelled; hpp-centroidal-dynamics is replaced by an arbitrary-valued stub",
          "trusted: engine/SymPass.cpp, engine/symrt.cpp (polynomial normal form), z3; cross-checked by native replay of every reported path and by raw-encoding queries"]
if __name__ == "__main__":
    sys.exit(main())

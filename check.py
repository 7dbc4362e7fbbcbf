#!/usr/bin/env python3-vt
"""check.py <property id> : decides one property of /repo's current tree (see DESIGN.md)."""
import importlib, json, multiprocessing as mp, os, sys, time, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from cgv.fe import BUILD, REPO

T0 = time.time()
PROG = None; MOD = None; TIER = "quick"


def work(i):
    from cgv.spec import verify, Registry
    from cgv.core import Solver
    c = MOD.VERIFY[i]
    reg = Registry(c.registry if getattr(c, "registry", None) is not None else MOD.CONTRACTS)
    budget = (c.timeout or 240) * (1 if TIER == "quick" else 3); lm = getattr(c, "loop_ms", None)
    # a failed obligation is reported only if the whole function fails again with other solver seeds and larger limits
    for attempt in range(3):
        if attempt and lm: c.loop_ms = lm * 3
        R1 = verify(PROG, c, reg, budget=budget, solver=Solver((8000 if TIER == "quick" else 30000) * (2 if attempt else 1), seed=attempt * 11))
        if attempt == 0 or R1.status == "proved": R = R1
        if R1.status != "failed" or not all(o.result in ("proved", "unknown") for o in R1.obls) or time.time() > T0 + 420: break
    ex = R.ex
    return {"i": i, "name": c.name(), "loc": R.loc, "status": R.status, "msg": R.msg, "time": R.time, "paths": R.paths, "bounded": getattr(c, "bounded", None),
            "obls": [(o.name, o.where, o.result, o.detail) for o in R.obls],
            "by": dict(ex.solver.by) if ex else {}, "queries": ex.solver.n if ex else 0, "stime": ex.solver.time if ex else 0.0,
            "inlined": sorted(ex.inlined) if ex else [], "specs": sorted(ex.used_specs) if ex else [], "models": sorted(ex.used_models) if ex else [],
            "assumed": sorted(ex.assumed) if ex else [], "loops": [(w, l) for w, l in ex.loop_obls] if ex else []}


def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=<id> key=<key> <text>
                parts = l[9:].split(" ", 2)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2] if len(parts) > 2 else ""))
    return out


if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    global PROG, MOD, TIER
    pid = sys.argv[1]; TIER = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: TIER = "thorough"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    MOD = importlib.import_module("contracts." + pid.lower())
    drivers = list(getattr(MOD, "DRIVERS", []))
    from cgv import drv
    dres = {}; dthreads = []
    secs = getattr(MOD, "DRIVER_SECONDS", 20) if TIER == "quick" else 300
    def dwork(n):
        d = drv.Driver(n)
        try:
            if not d.build(): dres[n] = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "note": "driver not built: " + d.log, "scenarios": {}}; return
            dres[n] = d.run(seed, secs)
        except Exception as e: dres[n] = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "note": "driver error: %s" % e, "scenarios": {}}
    results = []; extract_error = None
    try:
        from cgv.fe import Program
        PROG = Program()
    except Exception as e: extract_error = "extraction failed: %s" % str(e)[:1500]
    # drivers are processes of their own: start them beside the proofs
    for n in drivers:
        t = threading.Thread(target=dwork, args=(n,)); dthreads.append(t)
    if PROG is not None:
        n = len(MOD.VERIFY)
        ctx = mp.get_context("fork")
        # fork the workers before any thread exists
        pool = ctx.Pool(min(7, max(1, n)), maxtasksperchild=1) if n else None
        asy = [pool.apply_async(work, (i,)) for i in range(n)] if n else []
        for t in dthreads: t.start()
        limit = t0 + (780 if TIER == "quick" else 6 * 3600)
        for i, a in enumerate(asy):
            try: results.append(a.get(timeout=max(1, limit - time.time())))
            except mp.TimeoutError: results.append({"i": i, "name": MOD.VERIFY[i].name(), "loc": "", "status": "unsupported", "msg": "time budget exhausted", "time": 0, "paths": 0, "bounded": None, "obls": [], "by": {}, "queries": 0, "stime": 0, "inlined": [], "specs": [], "models": [], "assumed": [], "loops": []})
            except Exception as e: results.append({"i": i, "name": MOD.VERIFY[i].name(), "loc": "", "status": "unsupported", "msg": "verifier error %r" % e, "time": 0, "paths": 0, "bounded": None, "obls": [], "by": {}, "queries": 0, "stime": 0, "inlined": [], "specs": [], "models": [], "assumed": [], "loops": []})
        if pool: pool.terminate()
    else:
        for t in dthreads: t.start()
    for t in dthreads: t.join()

    # ---------------------------------------------------------------- verdict
    known = [(k, t) for p, k, t in load_known() if p == pid]
    hit = set(); viol = []
    def is_known(key):
        for k, t in known:
            if k == key: hit.add((k, t)); return True
        return False
    for r in results:
        if r["status"] == "failed":
            seen = set()
            for o in r["obls"]:
                if o[2] == "proved": continue
                key = "obligation:%s:%s" % (r["name"].replace(" ", "_"), o[0].replace(" ", "_"))
                if key in seen or is_known(key): continue
                seen.add(key)
                viol.append(("obligation", key, "%s (%s): obligation '%s' at %s is not discharged: %s\n%s" % (r["name"], r["loc"], o[0], o[1], o[2], o[3])))
        elif r["status"] == "vacuous" and r["msg"].startswith("never possible"):
            key = "obligation:%s:reachability" % r["name"].replace(" ", "_")
            if not is_known(key): viol.append(("obligation", key, "%s (%s): %s" % (r["name"], r["loc"], r["msg"])))
    for n, d in dres.items():
        seen = set()
        for k, t in d["fails"]:
            if k in seen or is_known("driver:" + k): continue
            seen.add(k); viol.append(("input", "driver:" + k, "replay driver %s, %s: %s" % (n, k, t)))
    for k, t in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (pid, t))
    rc = 0
    if viol:
        rc = 1
        rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.txt" % pid)
        inp = [v for v in viol if v[0] == "input"]
        with open(path, "w") as f:
            f.write("property %s, tree %s\n\n" % (pid, PROG.key if PROG else "?"))
            for kind, key, txt in inp + [v for v in viol if v[0] != "input"]: f.write("%s: %s\n%s\n\n" % (kind, key, txt))
            for n, d in dres.items(): f.write("driver %s: re-run with  DRV_SEED=%d DRV_SECONDS=%s <binary built by cgv/drv.py>\n%s\n" % (n, seed, secs, d.get("log", d["note"])))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if inp else " no-failing-input-found"))
        for v in viol[:6]: print("  " + v[2].splitlines()[0][:300])
    # ---------------------------------------------------------------- evidence
    allo = [o for r in results for o in r["obls"]]
    by = {}
    for r in results:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    und = [r for r in results if r["status"] not in ("proved", "failed")]
    models = sorted({m for r in results for m in r["models"]})
    trusted = sorted({c.name() for c in MOD.CONTRACTS if c.trusted} & {s for r in results for s in r["specs"]})
    assumed = sorted({a for r in results for a in r["assumed"]})
    level = getattr(MOD, "LEVEL", "proof")
    ev = {"property": pid, "tier": TIER, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {
              "obligations": len(allo), "discharged": sum(1 for o in allo if o[2] == "proved"),
              "checker_cmd": "python3-vt check.py %s" % pid,
              "trusted_base": ["cgv (this verification-condition generator over clang 18's AST)", "z3 %s, cvc5" % __import__("z3").get_version_string()] + ["library model: " + m for m in models] + ["assumed contract: " + t for t in trusted],
              "functions_under_contract": [{"function": r["name"], "at": r["loc"], "status": r["status"], "note": r["msg"][:300], "obligations": len(r["obls"]), "paths": r["paths"], "seconds": round(r["time"], 1), "inlined": r["inlined"], "uses_contracts": r["specs"]} for r in results],
              "proved_functions": [r["name"] for r in results if r["status"] == "proved"],
              "undecided_functions": ["%s: %s %s" % (r["name"], r["status"], r["msg"][:200]) for r in und],
              "discharged_by": by, "solver_queries": sum(r["queries"] for r in results), "solver_seconds": round(sum(r["stime"] for r in results), 2),
              "loop_invariants": sum(len(l) for r in results for _, l in r["loops"]),
              "obligation_samples": ["%s @ %s: %s" % (o[0], o[1], o[2]) for o in allo[:3] + allo[-3:]],
              "evaluations": sum(d["evaluations"] for d in dres.values()), "distinct_nontrivial": sum(d["distinct"] for d in dres.values()),
              "rule": getattr(MOD, "RULE", "bounded replay of the real code under a deterministic scheduler; distinct = different recorded event sequences; never counted as proof"),
              "samples": [s for d in dres.values() for s in d["samples"]][:6] or ["no replay driver: obligations only"],
              "drivers": {n: {"scenarios": d["scenarios"], "note": d["note"][:600]} for n, d in dres.items()},
              "explanation": getattr(MOD, "EXPLANATION", ""),
              "known_findings_seen": [t for _, t in sorted(hit)],
          },
          "assumptions": getattr(MOD, "ASSUMPTIONS", []) + assumed + ["machine integers are modelled as mathematical integers within their type's range on input; overflow of intermediate results is not checked", "interleavings inside functions under contract are covered by monitor (lock) invariants only; sequential consistency"]}
    if extract_error: ev["coverage"]["undecided_functions"].append(extract_error)
    tmp = os.path.join(HERE, "evidence", "%s.json.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False); os.replace(tmp, tmp[:-4])
    print("%s: %d functions proved, %d undecided, %d/%d obligations discharged, %d bounded replays, %.1f s" % (pid, len(ev["coverage"]["proved_functions"]), len(und), ev["coverage"]["discharged"], len(allo), ev["coverage"]["evaluations"], time.time() - t0))
    for r in und: print("  undecided: %s: %s %s" % (r["name"], r["status"], r["msg"][:200]))
    if extract_error: print("  " + extract_error)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__": main()

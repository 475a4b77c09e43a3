# coding=utf-8
"""
Runner:  run.py --property C01 --tier quick            decide a property (all its harnesses)
         run.py --replay replays/C01-....json          replay a recorded counterexample on the real code
         run.py --worker ...                           one harness (internal)
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True


def module_for(prop):
    return importlib.import_module("harness.%s" % prop.lower())


def load_mods():
    from symex import instrument, models
    models.install_pandas()
    return instrument.Mods(True), instrument.Mods(False)


# ---------------------------------------------------------------------------------------------------------
def worker(prop, name, tier, seed, out):
    from symex import explore, instrument
    t0 = time.time()
    mod = module_for(prop)
    h = [x for x in mod.HARNESSES if x.name == name][0]
    h.set_tier(tier)
    sym, raw = load_mods()
    ex = explore.Explorer(h, sym, raw, seed=seed, budget_s=h.budget, run_cpu_s=h.run_cpu_s, max_paths=h.max_paths)
    st, viol = ex.explore()
    res = {"harness": name, "stats": st.as_dict(), "violations": viol, "functions": sorted(instrument.FUNCS),
           "sources": instrument.SOURCES, "wall_s": time.time() - t0,
           "missing_reach": [l for l in h.reach if not st.reached.get(l)]}
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def replay(path):
    from symex import explore
    with open(path) as f:
        r = json.load(f)
    status, msg = replay_data(r)
    print("replay %s harness=%s: %s %s" % (r["property"], r["harness"], status, msg))
    return 1 if status in ("fail", "crash", "timeout") else 0


def replay_data(r):
    from symex import explore
    mod = module_for(r["property"])
    h = [x for x in mod.HARNESSES + getattr(mod, "FINDING_HARNESSES", []) if x.name == r["harness"]][0]
    h.set_tier(r.get("tier", "quick"))
    sym, raw = load_mods()
    ex = explore.Explorer(h, sym, raw, run_cpu_s=h.run_cpu_s)
    status, msg, _ = ex.run_concrete(explore.dec_assign(r["assign"]))
    return status, msg


# ---------------------------------------------------------------------------------------------------------
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]


def decide(prop, tier, seed):
    t0 = time.time()
    mod = module_for(prop)
    hs = [h for h in mod.HARNESSES if h.only in (None, tier)]
    work = tempfile.mkdtemp(prefix="vrun_")
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    pending = list(hs)
    running = []
    results = {}
    errors = []
    try:
        while pending or running:
            while pending and len(running) < jobs:
                h = pending.pop(0)
                h.set_tier(tier)
                out = os.path.join(work, h.name + ".json")
                err = open(os.path.join(work, h.name + ".err"), "w")
                env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                           OMP_NUM_THREADS="1", TMPDIR=work)
                p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", h.name, "--property", prop,
                                      "--tier", tier, "--seed", str(seed), "--out", out], env=env, stderr=err,
                                     stdout=err, cwd=HERE)
                running.append((h, p, out, err, time.time()))
            still = []
            for h, p, out, err, ts in running:
                rc = p.poll()
                if rc is None:
                    if time.time() - ts > h.budget * 2 + 120:
                        p.kill()
                        p.wait()
                        errors.append("%s: worker exceeded its time limit" % h.name)
                    else:
                        still.append((h, p, out, err, ts))
                    continue
                err.close()
                if os.path.exists(out):
                    with open(out) as f:
                        results[h.name] = json.load(f)
                else:
                    with open(err.name) as f:
                        errors.append("%s: worker failed rc=%s: %s" % (h.name, rc, f.read()[-2000:]))
            running = still
            if running:
                time.sleep(0.05)
    finally:
        for h, p, out, err, ts in running:
            p.kill()
        subprocess.call(["rm", "-rf", work])

    # known findings: replayed on the real code
    kf_lines = []
    for k in known_findings(prop):
        status, msg = replay_data(k)
        if status in ("fail", "crash", "timeout"):
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            print(kf_lines[-1])

    viol = []
    rdir = os.path.join(HERE, "replays")
    for h in hs:
        for v in results.get(h.name, {}).get("violations", []):
            os.makedirs(rdir, exist_ok=True)
            rec = {"property": prop, "harness": h.name, "tier": tier, "assign": v["assign"], "message": v["message"],
                   "status": v["status"]}
            dig = hashlib.sha256(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s-%s.json" % (prop, h.name, dig))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            viol.append((path, h.name, v))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  harness %s: %s: %s" % (h.name, v["status"], v["message"]))

    write_evidence(prop, tier, seed, mod, hs, results, errors, viol, kf_lines, time.time() - t0)
    for h in hs:
        r = results.get(h.name)
        if r:
            s = r["stats"]
            print("%-28s paths=%-6d queries=%-6d obl=%-6d exhausted=%-5s disc=%d spur=%d unk=%d pins=%d work=%d wall=%.1fs%s"
                  % (h.name, s["paths"], s["queries"], s["obligations"], s["exhausted"], s["discrepancies"],
                     s["spurious"], s["unknown"], s["paths_with_pins"], s.get("work_left", 0), r["wall_s"],
                     " MISSING-REACH %s" % r["missing_reach"] if r["missing_reach"] else ""))
            if os.environ.get("VERIF_VERBOSE"):
                for n in s["discrepancy_notes"]:
                    print("    note:", n)
    for e in errors:
        print("note (no verdict from a harness):", e[-1500:])
    if viol:
        return 1
    if not results:
        # nothing could be explored at all: report honestly, this is no pass
        print("no harness produced a result")
        return 2
    return 0


def write_evidence(prop, tier, seed, mod, hs, results, errors, viol, kf, wall):
    from symex import models
    funcs = sorted({f for r in results.values() for f in r["functions"]})
    src = {}
    for r in results.values():
        src.update(r["sources"])
    tot = {}
    for r in results.values():
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    harn = []
    for h in hs:
        r = results.get(h.name)
        harn.append({"name": h.name, "bounds": h.bounds, "params": {k: repr(v)[:200] for k, v in h.params.items()},
                     "result": None if r is None else {
                         k: r["stats"][k] for k in
                         ("paths", "queries", "sat", "unsat", "unknown", "obligations", "obligation_queries",
                          "obligations_unsat", "obligations_simplified", "exhausted", "paths_with_pins", "choice_forks",
                          "divergences", "discrepancies", "discrepancy_notes", "spurious", "concrete_replays", "skipped",
                          "reached", "solver_s", "wall_s")},
                     "vacuity": None if r is None else {"required": h.reach, "missing": r["missing_reach"]}})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 3),
          "coverage": {
              "states": int(tot.get("paths", 0)),
              "transitions": int(tot.get("queries", 0)),
              "traces_validated_against_impl": int(tot.get("concrete_replays", 0)),
              "samples": [{"harness": n, "inputs": s} for n, r in sorted(results.items())
                          for s in r["stats"]["sample_inputs"][:1]][:5],
              "explanation": "states = feasible paths of the harnesses over the instrumented code, each covering every "
                             "input value satisfying its path condition; transitions = SMT queries (branch negations "
                             "and negated assertions); every path and every solver counterexample is replayed on the "
                             "uninstrumented code",
              "technique": "concolic symbolic execution of the Python source, z3",
              "functions_encoded": funcs,
              "source_hashes": src,
              "harnesses": harn,
              "queries": {"total": int(tot.get("queries", 0)), "sat": int(tot.get("sat", 0)),
                          "unsat": int(tot.get("unsat", 0)), "unknown": int(tot.get("unknown", 0)),
                          "solver_time_s": round(tot.get("solver_s", 0.0), 3)},
              "all_paths_explored": bool(results) and not errors and
                  all(r["stats"]["exhausted"] for r in results.values()) and len(results) == len(hs),
              "errors": errors},
          "assumptions": models.ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
          "violations": len(viol)}
    if viol:
        ev["coverage"]["violation_details"] = [{"replay": p, "harness": n, "message": v["message"]} for p, n, v in viol]
    if kf:
        ev["coverage"]["known_findings"] = kf
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.worker:
        worker(a.property, a.worker, a.tier, a.seed, a.out)
        return
    sys.exit(decide(a.property, a.tier, a.seed))


if __name__ == "__main__":
    main()

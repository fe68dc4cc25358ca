"""check.py PROP [--tier quick|thorough]: decide one property of /repo's current tree.

1. generate the verification conditions of all units of the property from the source and discharge them (deciding step);
2. run the concrete oracle of the property (bounded; provides witnesses and covers the stand-ins);
3. write evidence/<PROP>.json and report.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue as _q
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ROOT = os.environ.get("VERIF_TARGET", "/repo/framework_python")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable



FINISHED = ["hierarchy", "lookup", "reads", "connect", "semantic", "factorization", "traversal", "indexing", "query", "tensor", "phys", "search", "spread", "cbor"]


def load_units():
    from contracts import base
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.startswith("c") and f.endswith(".py")
                    and f[1:-3].isdigit()) + FINISHED:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            importlib.import_module("contracts." + m)
    return base.UNITS


def worker(name, prop, conn):
    sys.setrecursionlimit(20000)
    from contracts import base
    load_units()
    u = [x for x in base.UNITS if x.name == name][0]
    conn.send(base.run_unit(u, ROOT, prop))
    conn.close()


def run_units(units, prop, limit, jobs):
    """limit: seconds for all units together; what has no result by then counts as not verified."""
    t0 = time.time()
    ctx = mp.get_context("fork")
    todo, running, reps = list(units), [], {}
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(u.name, prop, b), daemon=True)
            p.start()
            b.close()
            running.append((u, p, a, time.time()))
        time.sleep(0.05)
        for r in list(running):
            u, p, a, t = r
            rep = None
            if a.poll():
                try:
                    rep = a.recv()
                except EOFError:
                    rep = {"error": "the verifier process ended without a report"}
            elif not p.is_alive():
                rep = {"error": "the verifier process ended without a report"}
            elif time.time() - t0 > limit:
                rep = {"error": "no result within %d s" % limit}
            if rep is not None:
                running.remove(r)
                p.terminate()
                p.join(5)
                a.close()
                rep.setdefault("obligations", [])
                for k, v in (("unit", u.name), ("functions", u.functions), ("vacuous", []), ("notes", []), ("inlined", []),
                             ("contracts_used", []), ("solver_s", 0), ("wall_s", time.time() - t), ("loops", []),
                             ("solver_calls", 0), ("paths", 0), ("generated", 0)):
                    rep.setdefault(k, v)
                reps[u.name] = rep
    return [reps[u.name] for u in units]


def start_oracle(prop, tier, seed, secs, outdir, tag):
    out = os.path.join(outdir, "%s-%s.json" % (prop, tag))
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([PY, os.path.join(HERE, "oracles", "main.py"), prop, tier, str(seed), str(secs), out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=outdir)
    return p, out, time.time(), secs


def end_oracle(h):
    p, out, t, secs = h
    try:
        p.wait(max(1, secs + 90 - (time.time() - t)))
    except subprocess.TimeoutExpired:
        p.kill()
        return {"error": "the oracle did not end"}
    try:
        return json.load(open(out))
    except Exception:
        return {"error": "the oracle gave no result (exit %s)" % p.returncode}


def known_findings():
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding:"):
                out.append(l.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--proof-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, tier = a.prop, a.tier
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    oh = None
    if not a.proof_only:
        oh = start_oracle(prop, tier, seed, 25 if tier == "quick" else 300, outdir, "oracle")
    units = [u for u in load_units() if prop in u.props and (tier == "thorough" or not u.thorough)]
    reps = run_units(units, prop, 480 if tier == "quick" else 1500, 7)
    failed = []
    n = d = 0
    for r in reps:
        obs = r["obligations"]
        n += len(obs)
        d += sum(o["ok"] for o in obs)
        for o in obs:
            if not o["ok"]:
                failed.append({"unit": r["unit"], "obligation": o["name"], "at": o["where"]})
        if r["error"]:
            n += 1
            failed.append({"unit": r["unit"], "obligation": "the unit is verified", "at": "", "verifier": r["error"]})
        elif not r["generated"]:
            n += 1
            failed.append({"unit": r["unit"], "obligation": "the unit has obligations", "at": ""})
        for v in r["vacuous"]:
            n += 1
            failed.append({"unit": r["unit"], "obligation": "assumptions are consistent: " + v, "at": ""})
    orc = end_oracle(oh) if oh else {"evaluations": 0, "distinct": 0, "samples": [], "violation": None, "known": []}
    if orc.get("error"):
        # an oracle that dies tells nothing: try once more
        oh = start_oracle(prop, tier, seed, 25, outdir, "oracle")
        orc = end_oracle(oh)
    witness = orc.get("violation")
    if failed and not witness and not a.proof_only:
        hs = [start_oracle(prop, "thorough", seed + k, 60, outdir, "search%d" % k) for k in range(1, 7)]
        for h in hs:
            r = end_oracle(h)
            if r.get("violation") and not witness:
                witness = r["violation"]
    from contracts import info
    spec = info.INFO.get(prop, {})
    known = known_findings()
    kn = [k for k in orc.get("known", []) or []]
    cov = {
        "obligations": n, "discharged": d,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        "back_end": "z3 %s (python API), fixed seeds, resource limits" % importlib.import_module("z3").get_version_string(),
        "trusted_base": info.TRUSTED + spec.get("trusted", []),
        "units": [{"unit": r["unit"], "functions": r["functions"], "obligations": len(r["obligations"]),
                   "discharged": sum(o["ok"] for o in r["obligations"]), "solver_s": r["solver_s"],
                   "solver_calls": r["solver_calls"], "paths": r["paths"], "wall_s": round(r["wall_s"], 2),
                   "error": r["error"]} for r in reps],
        "functions_under_contract": sorted({f for r in reps for f in r["functions"]}),
        "functions_inlined": sorted({f for r in reps for f in r["inlined"]}),
        "contracts_relied_on": sorted({f for r in reps for f in r["contracts_used"]}),
        "loops_cut_by_invariants": sum(len(r["loops"]) for r in reps),
        "solver_s": round(sum(r["solver_s"] for r in reps), 2),
        "not_proved_bounded_only": spec.get("bounded", []),
        "evaluations": orc.get("evaluations", 0), "distinct_nontrivial": orc.get("distinct", 0),
        "rule": spec.get("rule", "concrete cases run against the real code and compared with an independent model; "
                                 "bounded, not counted as proved; a case is non-trivial if it was not run before"),
        "samples": orc.get("samples", []) or ["-"],
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": spec.get("level", "proof"), "coverage": cov,
          "assumptions": sorted({x for r in reps for x in r["notes"]}) + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if (failed or witness) else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        if any("id=" + k + " " in l + " " for l in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, [l for l in known if "id=" + k in l][0].split("id=", 1)[1]))
        else:
            witness = witness or {"case": {"known": k}, "message": k}
    print("%s: %d/%d obligations discharged in %d units, %d concrete cases, %.1f s" % (
        prop, d, n, len(reps), orc.get("evaluations", 0), time.time() - t0))
    for x in failed[:12]:
        print("  not discharged: %(unit)s: %(obligation)s %(at)s" % x, x.get("verifier", "")[:600])
    if orc.get("error"):
        print("  oracle:", orc["error"])
    if failed or witness:
        rp = os.path.join(outdir, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "case": witness["case"] if witness else None,
                       "message": witness["message"] if witness else None, "failed_obligations": failed,
                       "how": "%s /verif/oracles/main.py %s --replay %s" % (PY, prop, rp) if witness else
                       "python3-vt /verif/check.py %s" % prop}, f, indent=1)
        if witness:
            print("  witness: %s" % str(witness["message"])[:500])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    if orc.get("error"):
        # nothing was refuted, but the cross-check is missing
        print("  note: proved, but the concrete cross-check gave no result")
    return 0


if __name__ == "__main__":
    sys.exit(main())

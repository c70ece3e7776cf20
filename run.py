#!/usr/bin/env python3
"""Check runner:  run.py P06 [--tier quick|thorough]

1. deductive part: contracts/<pid>.py, VCs generated from /repo's current source
2. runtime-contract part: oracles/<pid>.py executes the real code (CPython / the
   kernel compiled from /repo's current source); used to replay refuted
   obligations and as the *bounded* stand-in for undischarged ones."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and "pyvenv" not in sys.prefix:
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": []}


def _one(args):
    pid, idx, seed, tier = args
    importlib.import_module(f"contracts.{pid.lower()}")
    from ve import spec
    return spec.run_contract(spec.REG[idx], REPO, seed, tier)


def run_contracts(pid, seed, tier, only=None):
    if not os.path.exists(os.path.join(HERE, "contracts", f"{pid.lower()}.py")):
        return []
    importlib.import_module(f"contracts.{pid.lower()}")
    from ve import spec
    jobs = [(pid, k, seed, tier) for k, c in enumerate(spec.REG)
            if c.module == f"contracts.{pid.lower()}" and (tier == "thorough" or not c.thorough) and (only is None or only in c.name)]
    out = []
    budget = float(os.environ.get("VE_CONTRACT_S", "420"))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1)
    rs = [(j, pool.apply_async(_one, (j,))) for j in jobs]
    end = time.time() + budget
    for j, r in rs:
        try:
            out.append(r.get(timeout=max(1.0, end - time.time())))
        except mp.TimeoutError:
            c = spec.REG[j[1]]
            out.append({"contract": c.name, "bounded": c.bounded, "functions": list(c.fns), "obligations": [], "error": "time budget",
                        "paths": 0, "loops": 0, "touched": {}, "assumptions": [], "queries": 0, "solver_s": 0,
                        "wall_s": budget})
    pool.terminate()
    return out


def run_oracle(pid, seed, tier, budget, focus=None):
    """returns dict(status, failures, counts)"""
    f = os.path.join(HERE, "oracles", f"{pid.lower()}.py")
    if not os.path.exists(f):
        return {"status": "none", "failures": [], "cases": 0, "checks": {}}
    tmp = tempfile.mkdtemp(prefix="verif_or_")
    outp = os.path.join(tmp, "out.json")
    env = dict(os.environ, PYTHONPATH=f"{HERE}", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=tmp, VERIF_TMP=tmp)
    cmd = [PY, "-W", "ignore", f, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", outp]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 3 + 240, env=env, cwd=tmp)
        if os.path.exists(outp):
            d = json.load(open(outp))
            d["status"] = "ok"
        else:
            d = {"status": "crash", "failures": [], "cases": 0, "checks": {}, "log": (r.stdout + r.stderr)[-3000:]}
    except subprocess.TimeoutExpired:
        d = {"status": "timeout", "failures": [], "cases": 0, "checks": {}}
        if os.path.exists(outp):
            d.update(json.load(open(outp)))
            d["status"] = "ok"
    shutil.rmtree(tmp, ignore_errors=True)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--no-contracts", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from concurrent.futures import ThreadPoolExecutor
    budget = 25 if tier == "quick" else 240
    fut = None
    ex = ThreadPoolExecutor(1)
    if not a.no_oracle:
        fut = ex.submit(run_oracle, pid, seed, tier, budget)
    cons = [] if a.no_contracts else run_contracts(pid, seed, tier, a.only)
    orc = fut.result() if fut else {"status": "skipped", "failures": [], "cases": 0, "checks": {}}
    known = [k for k in load_known().get("findings", []) if k["property"] == pid]

    refuted, undecided, proved, bproved = [], [], [], []
    for c in cons:
        for o in c["obligations"]:
            ((bproved if c["bounded"] else proved) if o["status"] == "proved" else refuted if o["status"] == "refuted" else undecided).append((c, o))
        if c["error"]:
            undecided.append((c, {"name": c["contract"], "status": "undecided", "note": c["error"]}))

    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)

    viol = []
    knownhit = []
    # --- runtime contract failures
    for f in orc.get("failures", []):
        k = [x for x in known if x.get("check") == f.get("check") and x.get("signature") == f.get("signature")]
        if k:
            knownhit.append(k[0])
            continue
        viol.append(("replayed", f))
    ref_new = []
    for c, o in refuted:
        k = [x for x in known if x.get("obligation") == o["name"]]
        if k:
            knownhit.append(k[0])
            continue
        ref_new.append((c, o))
    lines = []
    seen = set()
    for k in knownhit:
        s = f"KNOWN-FINDING: property={pid} {k['what']}"
        if s not in seen:
            seen.add(s)
            lines.append(s)
    rc = 0
    nviol = 0
    if viol:
        rc = 1
        nviol = len(viol)
        rp = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "kind": "failing input replayed on the real code",
                   "failures": [f for _, f in viol][:10],
                   "replay_cmd": f"cd {HERE} && VERIF_REPO={REPO} PYTHONPATH={HERE} {PY} oracles/{pid.lower()}.py --replay {rp}",
                   "failed_obligations": [dict(o, contract=c["contract"]) for c, o in ref_new]},
                  open(rp, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={rp}")
    elif ref_new:
        rc = 1
        nviol = len(ref_new)
        rp = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "kind": "obligation refuted by the verifier, no failing input found",
                   "failed_obligations": [dict(o, contract=c["contract"], functions=c["functions"]) for c, o in ref_new],
                   "failures": []}, open(rp, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")

    nob = len(proved) + len(refuted) + len(undecided)
    backends = {}
    for _, o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    touched = {}
    for c in cons:
        touched.update(c["touched"])
    full = bool(cons) and not undecided and not refuted
    mod = sys.modules.get(f"contracts.{pid.lower()}")
    trusted = list(getattr(mod, "TRUSTED", []))
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    assumptions += ["bounded part of the contract (not unbounded proof): " + b for b in getattr(mod, "BOUNDED", [])]
    for c in cons:
        assumptions += [f"{c['contract']}: {s}" for s in c["assumptions"]]
    base_assume = ["floating point treated as exact real arithmetic (float32/float64 rounding, overflow, nan not modelled) in the proof; the runtime contracts use the real floats",
                   "fixed-width integers treated as mathematical integers",
                   "the numpy/scipy operations are modelled by ve/npmodel.py and ve/npapi.py (trusted), cross-checked by the runtime contracts on the real code"]
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": manifest_level(pid, full),
          "coverage": {"obligations": nob, "discharged": len(proved),
                       "checker_cmd": f"python3 {HERE}/run.py {pid} --tier {tier}",
                       "trusted_base": ["z3 5.3.2 / cvc5 1.1.2", "ve/alg.py ring normaliser", "ve/pyint.py, ve/loops.py, ve/cxx.py VC generator"] + trusted,
                       "functions_under_contract": sorted({f for c in cons for f in c["functions"]}),
                       "functions_executed_symbolically": touched,
                       "backends": backends,
                       "bounded_contracts": {"label": "discharged, but with a stated bound on some size: bounded, not counted as proved",
                                             "obligations_discharged": len(bproved),
                                             "bounds": list(getattr(mod, "BOUNDED", [])),
                                             "contracts": [c["contract"] for c in cons if c["bounded"]]},
                       "undischarged": [{"contract": c["contract"], **o} for c, o in undecided],
                       "refuted": [{"contract": c["contract"], **o} for c, o in refuted],
                       "contracts": [{k: c[k] for k in ("contract", "functions", "paths", "loops", "queries", "solver_s", "wall_s", "error")}
                                     | {"obligations": len(c["obligations"])} for c in cons],
                       "solver_s": round(sum(c["solver_s"] for c in cons), 2),
                       "bounded_runtime_contracts": {"label": "bounded (not counted as proved)", "status": orc.get("status"),
                                                     "cases": orc.get("cases", 0), "checks": orc.get("checks", {}),
                                                     "skipped": orc.get("skipped", {}),
                                                     "log": orc.get("log", "")[-800:]}},
          "assumptions": base_assume + sorted(set(assumptions)),
          "violations": nviol,
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(edir, f"{pid}.json"), "w"), indent=1, default=str)
    for l in lines:
        print(l)
    print(f"{pid} [{tier}] obligations {nob} discharged {len(proved)} (+{len(bproved)} bounded) undecided {len(undecided)} refuted {len(refuted)}; "
          f"runtime cases {orc.get('cases', 0)} ({orc.get('status')}) failures {len(orc.get('failures', []))}; {time.time()-t0:.1f}s")
    if a.v or refuted or undecided or orc.get("status") in ("crash", "timeout"):
        for c, o in refuted + undecided:
            print("  -", o["status"], o["name"], (o.get("note") or "")[:300], (o.get("goal") or "")[:400] if a.v else "")
        if orc.get("status") == "crash":
            print(orc.get("log", "")[-2500:])
        for f in orc.get("failures", [])[:6]:
            print("  * runtime", f.get("check"), f.get("signature"), str(f.get("detail"))[:300])
    for k, x in orc.get("skipped", {}).items():
        if ":harness" in k or a.v:
            print("  ~ skipped", k, x)
    if a.v:
        for c in cons:
            print("   ", c["contract"], "paths", c["paths"], "obs", len(c["obligations"]), "loops", c["loops"], f"{c['wall_s']}s", c["error"] or "")
    # a crashed oracle on a tree where nothing could be proved decides nothing; never an alarm
    return rc


def manifest_level(pid, full):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof" if full else "other"


if __name__ == "__main__":
    sys.exit(main())

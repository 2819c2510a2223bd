#!/usr/bin/env python3
"""python check.py <property id> [--tier quick|thorough] [--replay file]

Runs every harness of one property against the working tree of /repo.
exit 0: no execution in the explored space violates the property
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed
"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# where evidence/ and replays/ are written
OUT = os.environ.get("VERIF_OUT", HERE)
PY = "/opt/venv/bin/python"

WANT_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}


def reexec():
    """one interpreter, one hash seed, one locale: the only nondeterminism is the explorer's"""
    ok = all(os.environ.get(k) == v for k, v in WANT_ENV.items()) and os.environ.get("VERIF_CHILD") == "1"
    if ok:
        return
    env = dict(os.environ)
    env.update(WANT_ENV)
    env["VERIF_CHILD"] = "1"
    env["PYTHONPATH"] = REPO
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py] + [os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    reexec()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["VERIF_SCRATCH"] = scratch
    os.makedirs(os.environ["MPLCONFIGDIR"])
    rc = 2
    try:
        rc = run(a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a):
    sys.path.insert(0, os.path.join(HERE, "mc"))
    sys.path.insert(0, os.path.join(HERE, "mc", "props"))
    import engine
    import bfs
    import warnings
    warnings.filterwarnings("ignore")
    t0 = time.time()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay_dir = os.path.join(OUT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, prop + ".json")

    def violation(v):
        v = dict(v, property=prop, tier=tier, repo=REPO)
        with open(replay_path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("property %s is violated: %s" % (prop, v.get("message")))
        for lab in (v.get("labels") or [])[:60]:
            print("   choice %s = %s" % (lab[0], lab[1]))
        for i, op in enumerate(v.get("ops") or []):
            print("   op %d: %s" % (i, op))
        d = v.get("detail") or {}
        for k in d:
            print("   %s: %s" % (k, str(d[k])[:1500]))
        print("replay: %s check.py %s --tier %s --replay %s" % (PY, prop, tier, replay_path))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))

    def evidence(cov, n_viol, assumptions):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": assumptions, "violations": n_viol, "wall_s": round(time.time() - t0, 3)},
                      f, indent=1, default=str)

    try:
        mod = importlib.import_module(prop.lower())
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        if os.path.join(REPO, "sidermit") in tb:
            # the package itself cannot be imported from the current tree
            violation({"harness": "import", "message": "the package cannot be imported: %r" % e, "detail": {"traceback": tb}})
            evidence({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["import"],
                      "exhaustive": False}, 1, [])
            return 1
        raise
    import sidermit
    assert os.path.realpath(sidermit.__file__).startswith(os.path.realpath(REPO) + os.sep), sidermit.__file__

    harnesses = list(getattr(mod, "HARNESSES", []))
    models = list(getattr(mod, "MODELS", []))
    if a.replay:
        return replay(a, mod, harnesses, models)
    budget = a.budget or (420 if tier == "quick" else 3300)
    viols = []
    per = {}
    states = trans = validated = execs = 0
    samples = []
    capped = False
    hs = [h for h in harnesses if not a.only or h[0] == a.only]
    if hs:
        r = engine.run_harnesses(prop, hs, tier, budget)
        viols += [dict(v, kind="choices") for v in r["violations"]]
        states += len(r["states"])
        trans += r["transitions"]
        validated += r["validated"]
        execs += r["executions"]
        samples += r["samples"]
        per.update(r["per_harness"])
        capped |= r["capped"]
    for m in models:
        if a.only and m.name != a.only:
            continue
        if viols:
            break
        r = bfs.bfs(m, tier, max(30, budget - (time.time() - t0)))
        states += r["states"]
        trans += r["transitions"]
        validated += r["validated"]
        execs += r["transitions"]
        capped |= r["capped"]
        if r["sample"]:
            samples.append({"harness": m.name, "history": r["sample"]})
        if r["violation"]:
            viols.append(dict(r["violation"], kind="history"))
        per[m.name] = {k: r[k] for k in ("ops", "depth_bound", "max_depth", "states", "transitions", "levels",
                                         "fixpoint", "capped")}
    # shortest counterexample first
    viols.sort(key=lambda v: len(v.get("choices") or v.get("history") or []))
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples[:12],
           "executions": execs, "per_harness": per, "exhaustive": not capped and not viols,
           "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
           "explanation": getattr(mod, "EXPLANATION", "every choice sequence of each harness is executed on the real "
                                                      "implementation and compared with the reference model")}
    evidence(cov, len(viols), list(getattr(mod, "ASSUMPTIONS", [])))
    known = json.load(open(os.path.join(HERE, "known_findings.json"))) if os.path.exists(
        os.path.join(HERE, "known_findings.json")) else {}
    for k in known.get("findings", []):
        if k.get("property") == prop and k.get("status") == "known":
            st = getattr(mod, "known_still_fails", None)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: executions=%d states=%d transitions=%d validated=%d %s%.1fs" % (
        prop, tier, execs, states, trans, validated, "CAPPED " if capped else "", time.time() - t0))
    for name, h in per.items():
        print("   %-28s %s" % (name, json.dumps({k: v for k, v in h.items() if k not in ("outcomes",)}, default=str)))
        if h.get("outcomes"):
            print("      outcomes: %s" % json.dumps(h["outcomes"])[:300])
    if viols:
        v = viols[0]
        if v["kind"] == "choices":
            v = engine.confirm(hs, tier, v)
        else:
            v = bfs.confirm([m for m in models if m.name == v["harness"]][0], tier, v)
        violation(v)
        return 1
    if execs == 0 or validated == 0:
        print("error: nothing was explored")
        return 2
    return 0


def replay(a, mod, harnesses, models):
    import engine
    import bfs
    v = json.load(open(a.replay))
    if v["replay_kind"] == "history":
        m = [m for m in models if m.name == v["harness"]][0]
        r = bfs._replay_hist((m, v["tier"], v["history"]))
    elif v["replay_kind"] == "trace":
        r = engine._replay_trace((dict(harnesses)[v["harness"]], v["harness"], v["tier"], v["choices"]))
    else:
        r = engine.explore_shard((dict(harnesses)[v["harness"]], v["harness"], v["tier"], v["shard"], time.time() + 600))
    print(json.dumps(r["violation"], indent=1, default=str))
    if r["violation"]:
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    return 0


if __name__ == "__main__":
    main()

"""Decide one property: contracts proved on the current source, with replay against the real code.

    python3-vt check.py C11
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REAL = os.environ.get("PYVC_PYTHON", "/opt/venv/bin/python")

GENERAL = [
    "floating-point arithmetic is treated as exact real arithmetic, integers as mathematical integers",
    "array ranks are enumerated by the contracts' cases; the length of every axis is symbolic and unbounded",
    "the pyvc symbolic executor and its numpy/quaternion/scipy contracts (pyvc/*.py) are trusted, cross-checked by the concrete trials",
    "source transformation by pyvc/loader.py: loops, comprehensions, empty lists and builtins are redirected to the verifier, nothing else changes",
]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) trial=(\S+) what=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def concrete(prop, seed, tier, budget, count=0):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "r.json")
        cmd = [REAL, "-W", "ignore", os.path.join(HERE, "concrete", "run.py"), prop, "--seed", str(seed), "--tier", tier,
               "--budget", str(budget), "--out", out]
        if count:
            cmd += ["--count", str(count)]
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_DISABLE_JIT=os.environ.get("NUMBA_DISABLE_JIT", "0"))
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 3 + 120, env=env, cwd=d)
        if not os.path.exists(out):
            return {"evaluations": 0, "trials": {}, "failures": [], "error": (p.stderr or p.stdout)[-3000:]}
        return json.load(open(out))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    os.environ["PYVC_TIER"] = tier
    import threading
    box = {}
    budget = 25 if tier == "quick" else 240
    flags = tempfile.TemporaryDirectory()
    stop = os.path.join(flags.name, "found")

    def trials():
        box["c"] = concrete(prop, seed, tier, budget)
        known = known_findings(prop)
        if any(not any(t == f["trial"] and w.search(f["what"]) for t, w, d in known) for f in box["c"]["failures"]):
            open(stop, "w").close()

    th = threading.Thread(target=trials)
    th.start()
    # the proof runs in its own process (no threads around forks)
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "p.json")
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--prove", prop, out], cwd=HERE, env=dict(os.environ, PYVC_STOP=stop),
                           capture_output=True, text=True)
        proof = json.load(open(out)) if os.path.exists(out) else None
    th.join()
    conc = box.get("c") or {"evaluations": 0, "trials": {}, "failures": [], "error": "concrete cross-check crashed"}
    crash = None
    if proof is None:
        # nothing is decided by contracts in this run; only the bounded cross-check speaks
        crash, proof = p.stderr[-1500:], []
    obs = [(r, o) for r in proof for o in r["obligations"]]
    failed = [(r, o) for r, o in obs if o["status"] != "proved"]
    unsup = [r for r in proof if r["unsupported"]]
    vacuous = [r for r in proof if not r["unsupported"] and len(r["obligations"]) < r["expect"]]
    if conc.get("error"):
        # the package cannot be imported or the trials cannot run at all
        conc["failures"] = [{"trial": "import", "seed": seed, "what": "the package does not run: " + conc["error"][-500:], "details": conc["error"]}]
    deep = None
    if (failed or vacuous) and not conc["failures"]:
        deep = concrete(prop, seed + 7919, "thorough", 90)
        conc["failures"] += deep["failures"]
        conc["evaluations"] += deep["evaluations"]
    known = known_findings(prop)
    fresh, listed = [], []
    for f in conc["failures"]:
        k = next((d for t, w, d in known if t == f["trial"] and w.search(f["what"])), None)
        (listed if k else fresh).append((f, k))
    for d in sorted({d for _, d in listed}):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if failed and not fresh and listed and not vacuous:
        pass
    violations = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join("replays", prop + ".json")
    rp = {"property": prop, "seed": seed, "tier": tier,
          "command": "cd /verif && %s concrete/run.py --replay %s" % (REAL, replay)}
    names = sorted({"%s: %s" % (r["case"].split("[")[0], o["name"]) for r, o in failed})
    rp["obligations_failed"] = [{"contract": r["case"], "functions": r["functions"], "obligation": o["name"], "status": o["status"],
                                 "backend": o["backend"], "reason": o["reason"], "goal": o["goal"], "model": o["model"], "hypotheses": o["hyps"]}
                                for r, o in failed[:10]]
    if fresh:
        violations += 1
        rp["failing_input"] = fresh[0][0]
        rp["obligation"] = names[:5] or ["(obligations discharged or outside the subset; found by the bounded cross-check)"]
        json.dump(rp, open(os.path.join(HERE, replay), "w"), indent=1, default=str)
        f = fresh[0][0]
        if names:
            print("failed obligation: " + "; ".join(names[:5]))
        print("failing input: trial %s seed %s: %s" % (f["trial"], f["seed"], f["what"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, replay)))
    elif failed:
        violations += 1
        rp["obligation"] = names[:10]
        json.dump(rp, open(os.path.join(HERE, replay), "w"), indent=1, default=str)
        print("failed obligation: " + "; ".join(names[:8]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.join(HERE, replay)))
    backends = {}
    times = {}
    for _, o in obs:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        times[o["backend"]] = times.get(o["backend"], 0.0) + o["time"]
    assumptions = GENERAL + sorted({a for r in proof for a in r["assumptions"]})
    n, d = len(obs), len(obs) - len(failed)
    notes = []
    if crash:
        notes.append("the verifier itself crashed, no contract was decided: " + crash)
    if unsup:
        notes.append("contracts whose current source is outside the verified subset; only the bounded cross-check stands in for them: "
                     + "; ".join("%s (%s)" % (r["case"], str(r["unsupported"])[-120:]) for r in unsup[:10]))
    if vacuous:
        notes.append("contracts that generated fewer obligations than expected: " + "; ".join(r["case"] for r in vacuous))
    level = "proof"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": n, "discharged": d, "checker_cmd": "python3-vt check.py %s" % prop,
            "trusted_base": assumptions,
            "functions_under_contract": sorted({f for r in proof for f in r["functions"]}),
            "contracts": len(proof), "paths": sum(r["paths"] for r in proof),
            "backends": backends, "solver_seconds": {k: round(v, 2) for k, v in times.items()},
            "outside_subset": [r["case"] for r in unsup], "vacuous": [r["case"] for r in vacuous],
            "bounded_cross_check": {"label": "bounded, not counted as proved", "evaluations": conc["evaluations"], "trials": conc["trials"]},
            "notes": notes,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d contracts, %d outside the subset, %d concrete evaluations, %.1f s" % (
        prop, d, n, len(proof), len(unsup), conc["evaluations"], time.time() - t0))
    for x in notes:
        print("note: " + x[:600])
    sys.exit(1 if violations else 0)


def prove(prop, out):
    from pyvc import runner
    rs = runner.run_property(prop)
    json.dump(rs, open(out, "w"), default=str)


if __name__ == "__main__":
    if sys.argv[1] == "--prove":
        prove(sys.argv[2], sys.argv[3])
    else:
        main()

"""Replay and bounded cross-check of properties against the real, installed code.

Runs under the interpreter that has the package's dependencies.  Every trial is
a function of a seeded random generator; it draws inputs, calls the real code
and compares with an independent oracle.  A failing trial is identified by its
name and seed, which is what a replay file records.

    run.py C11 --seed 1 --tier quick --budget 20 --out result.json
    run.py --replay replays/C11.json
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

from base import TRIALS, Violation  # noqa: E402


def run_one(t, seed):
    """None or a description of the violation."""
    from base import fresh_state
    rng = np.random.default_rng([seed, t.key])
    fresh_state()
    try:
        t.fn(rng)
    except Violation as e:
        return {"trial": t.name, "seed": int(seed), "what": str(e), "details": e.details}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {"trial": t.name, "seed": int(seed), "what": "%s: %s" % (type(e).__name__, e),
                "details": "".join(traceback.format_list(tb[-4:]))}
    finally:
        fresh_state()
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--trial")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        f = r.get("failing_input")
        if not f:
            print("no failing input recorded: %s" % r.get("obligation"))
            return 1
        importlib.import_module(r["property"].lower())
        t = next(t for t in TRIALS[r["property"]] if t.name == f["trial"])
        res = run_one(t, f["seed"])
        print(json.dumps(res, indent=1, default=str) if res else "the trial passes")
        return 1 if res else 0
    importlib.import_module(a.prop.lower())
    trials = [t for t in TRIALS[a.prop] if not a.trial or t.name == a.trial]
    t0 = time.time()
    fails, counts = [], {t.name: 0 for t in trials}
    rounds = a.count or 10 ** 9
    live = list(trials)
    i = 0
    # the first seed of every trial always runs
    while live and i < rounds and (i == 0 or time.time() - t0 < a.budget):
        for t in list(live):
            if i >= t.count * (10 if a.tier == "thorough" else 1) and not a.count:
                live.remove(t)
                continue
            r = run_one(t, a.seed * 1000003 + i)
            counts[t.name] += 1
            if r:
                fails.append(r)
                live.remove(t)
            if time.time() - t0 > a.budget and i > 0:
                break
        i += 1
    res = {"property": a.prop, "evaluations": sum(counts.values()), "trials": counts, "failures": fails, "wall": time.time() - t0}
    txt = json.dumps(res, default=str)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(json.dumps(res, indent=1, default=str))
    return 0


if __name__ == "__main__":
    sys.exit(main())

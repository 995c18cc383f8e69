"""Running contracts: every case in its own process, results as plain data."""
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback

from .terms import Unsupported, PathEnd
from . import engine as E

HERE = os.path.dirname(os.path.abspath(__file__))


class Internal(Exception):
    pass


def internal_error(e):
    """True if the exception is a limitation of the model, not behaviour of the program."""
    if type(e).__module__.startswith("z3"):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if not (fn.startswith(HERE) or "/contracts/" in fn):
        if isinstance(e, RecursionError):
            return True
        # a call of a modelled function with parameters that the model lacks, raised in the program's frame
        if isinstance(e, TypeError) and ("unexpected keyword argument" in str(e) or "positional argument" in str(e)):
            return True
        if isinstance(e, (TypeError, AttributeError)) and any(s in str(e) for s in MODEL_TYPES):
            return True
        return False
    import linecache
    line = linecache.getline(fn, last.tb_lineno).strip()
    return not line.startswith("raise ")


MODEL_TYPES = ("SymArray", "SymList", "SInt", "SBool", "_Opaque", "Opaque", "Undefined", "ConcatSeq", "SymRange", "_TypeProxy", "Special", "'NP'", "NT", "Shim", "QuatModule", "quaternion", "DataArray", "Dataset", "Coords")


def reraise_internal(e):
    if internal_error(e):
        raise Unsupported("%s: %s" % (type(e).__name__, e)) from e


def run_case(case):
    def body(ctx):
        try:
            case.body(ctx, **case.params)
        except Exception as e:
            if internal_error(e):
                raise Unsupported("%s: %s" % (type(e).__name__, e)) from e
            where = traceback.extract_tb(e.__traceback__)[-1]
            if "rigid_body_motion" in where.filename or True:
                ctx.fail("no exception on valid input", "%s: %s (%s:%s)" % (
                    type(e).__name__, str(e)[:200], os.path.basename(_innermost(e)[0]), _innermost(e)[1]))

    t0 = time.time()
    ctx = E.explore(body, case=case.params, func=case.name, budget=case.budget)
    obs = []
    for o in ctx.obligations:
        m = None
        if o.model is not None:
            try:
                m = str(o.model)[:3000]
            except Exception:
                m = None
        obs.append({"name": o.name, "status": o.status, "backend": o.backend, "time": o.time, "reason": o.reason,
                    "goal": o.goal, "model": m, "hyps": o.hyps})
    return {"case": case.name, "functions": case.functions, "obligations": obs, "paths": ctx.paths,
            "unsupported": ctx.unsupported, "where": getattr(ctx, "where", None), "assumptions": sorted(ctx.assumptions),
            "wall": time.time() - t0, "expect": case.expect}


def _innermost(e):
    tb, best = e.__traceback__, ("?", 0)
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "rigid_body_motion" in fn:
            best = (fn, tb.tb_lineno)
        tb = tb.tb_next
    return best


def _worker(prop, i, conn, scale=1):
    try:
        from . import prover
        prover.SCALE[0] = float(scale)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        m = importlib.import_module("contracts." + prop.lower())
        from contracts import common
        c = common.cases(prop)[i]
        c.budget *= scale
        conn.send(run_case(c))
    except BaseException as e:  # noqa
        conn.send({"crash": "".join(traceback.format_exception(e))[-3000:]})
    finally:
        conn.close()
        os._exit(0)


def run_property(prop, jobs=8, hard=120, only=None, total=360):
    t0 = time.time()
    failing = 0
    importlib.import_module("contracts." + prop.lower())
    from contracts import common
    cs = common.cases(prop)
    todo = [i for i in range(len(cs)) if only is None or only in cs[i].name]
    results = {}
    running = {}
    retry, scale = [], 1
    ctxm = mp.get_context("fork")
    todo.sort(key=lambda i: -cs[i].budget)
    stop, again = os.environ.get("PYVC_STOP"), True
    while todo or running or retry:
        if stop and os.path.exists(stop):
            # the concrete trials have found a failing input: name the failed obligations if that is quick
            stop, again, total, hard, failing = None, False, min(total, time.time() - t0 + 60), 60, max(failing, 1)
        if retry and (failing or not again) and not todo and not running:
            retry = []
        if retry and not todo and not running and scale == 1:
            # time limits of the solver depend on the load of the machine: undecided cases get a second chance
            todo, retry, scale, jobs, failing = retry[:8], [], 4, 4, 0
            total = max(total, min(time.time() - t0 + 150, 480))
        if todo and (failing >= 8 or time.time() - t0 > total):
            # the verdict is already known (or the time is used up): the rest is not decided in this run
            for i in todo:
                results[i] = {"skipped": True} if failing >= 8 else {"timeout": True}
            todo = []
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_worker, args=(prop, i, b, scale))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t) in list(running.items()):
            lim = max(hard, cs[i].budget * 1.5 + 20)
            lim = min(lim * scale, max(lim, 240))
            if a.poll(0.01):
                try:
                    results[i] = a.recv()
                    bad = [o for o in results[i].get("obligations", ()) if o["status"] != "proved"]
                    if scale == 1 and bad and all(o["status"] == "unknown" or "no loop variable" in (o["reason"] or "") for o in bad):
                        retry.append(i)
                    else:
                        failing += bool(bad)
                except EOFError:
                    results[i] = {"crash": "worker died"}
                p.join()
                del running[i]
            elif time.time() - t > lim or time.time() - t0 > (min(420, total + 60) if failing else 640):
                p.kill()
                p.join()
                results[i] = {"skipped": True} if failing and time.time() - t0 > 420 else {"timeout": True}
                del running[i]
            elif not p.is_alive() and not a.poll(0.2):
                results[i] = {"crash": "worker died"}
                del running[i]
    out = []
    for i in sorted(results):
        r = results[i]
        if r.get("skipped"):
            continue
        if "case" not in r:
            r = {"case": cs[i].name, "functions": cs[i].functions, "obligations": [], "paths": 0,
                 "unsupported": ("time limit" if r.get("timeout") else r.get("crash")), "assumptions": [], "wall": 0, "expect": cs[i].expect}
        r["assumptions"] = sorted(set(r["assumptions"]) | set(getattr(sys.modules["contracts." + prop.lower()], "ASSUMES", ())))
        out.append(r)
    return out


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(HERE))
    t0 = time.time()
    rs = run_property(sys.argv[1], only=next((x for x in sys.argv[2:] if not x.startswith("-")), None))
    n = d = 0
    for r in rs:
        ok = sum(o["status"] == "proved" for o in r["obligations"])
        n += len(r["obligations"])
        d += ok
        if ok == len(r["obligations"]) and not r["unsupported"] and "-a" not in sys.argv:
            continue
        print("%-70s %3d/%3d paths %d  %.1fs %s" % (r["case"], ok, len(r["obligations"]), r["paths"], r["wall"], "UNSUPPORTED: " + str(r["unsupported"])[-300:] if r["unsupported"] else ""))
        if r["unsupported"] and r.get("where") and "-v" in sys.argv:
            print(r["where"])
        seen = set()
        for o in r["obligations"]:
            if o["status"] != "proved" and o["name"] not in seen:
                seen.add(o["name"])
                print("     ", o["status"], o["name"], "|", o["reason"], "|", " ".join((o["goal"] or "").split())[:200])
                if "-v" in sys.argv:
                    print("        model", o["model"], "hyps", o["hyps"])
    print(n, d, "%.1fs" % (time.time() - t0))

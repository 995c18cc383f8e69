"""Plant a bug: python3 tools/plant.py ID PROPERTY FILE OLD NEW DEMO.py NEEDS BREAKS  (OLD/NEW: python string literals or @file)

Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} after confirming that the
stable tests pass with the change and the demonstration fails with it only.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def plant(id_, prop, file, edits, demo, needs, breaks):
    d = os.path.join(HERE, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    p = "/repo/rigid_body_motion/" + file
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    src = open(p).read()
    new = src
    for o, n in edits:
        assert new.count(o) == 1, "%d occurrences of %r" % (new.count(o), o)
        new = new.replace(o, n)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode:
        print(id_, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-500:], r.stderr[-800:])
        ok = False
    try:
        open(p, "w").write(new)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if not r.returncode:
            print(id_, "DEMO PASSES WITH THE CHANGE", r.stdout[-500:])
            ok = False
        demo_out = (r.stderr or r.stdout).strip().splitlines()[-1:]
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        o, b = json.load(open("/tmp/plant.json")), json.load(open("/opt/vp/BASELINE.json"))
        base = set(b.get("stable") or b.get("passed") or b.get("tests"))
        miss = base - set(o.get("passed"))
        if miss:
            print(id_, "TESTS FAIL", list(miss)[:3])
            ok = False
        c = ""
        if ok and os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
            r = sh("python3-vt check.py %s" % prop, cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            c = "rc %d %s" % (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "obligations discharged" in l])
        print(id_, "ok" if ok else "REJECTED", demo_out, c)
    finally:
        open(p, "w").write(src)
        assert sh("git -C /repo status --porcelain").stdout == ""
    if not ok:
        shutil.rmtree(d)
    return ok

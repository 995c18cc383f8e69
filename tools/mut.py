"""Developer helper: run the contracts of a property on a modified copy of the package.

mut.py PROP FILE OLD NEW [--concrete] [case filter]   (OLD/NEW: exact text, OLD must occur)
"""
import os, shutil, subprocess, sys, tempfile
conc = "--concrete" in sys.argv
argv = [a for a in sys.argv[1:] if a != "--concrete"]
prop, fn, old, new = argv[:4]
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="pyvcmut")
try:
    shutil.copytree("/repo/rigid_body_motion", d + "/rigid_body_motion")
    f = d + "/rigid_body_motion/" + fn
    s = open(f).read()
    assert old in s, "text not found"
    open(f, "w").write(s.replace(old, new))
    env = dict(os.environ, PYVC_REPO=d)
    if conc:
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "/verif/concrete/run.py", prop] + argv[4:], env=env, capture_output=True, text=True)
    else:
        r = subprocess.run(["python3-vt", "-m", "pyvc.runner", prop] + argv[4:], env=env, cwd="/verif", capture_output=True, text=True)
    out = (r.stdout + r.stderr).splitlines()
    n = int(os.environ.get("N", 5))
    for l in out[:n]:
        print(l[:int(os.environ.get("W", 230))])
    if len(out) > n:
        print("...", out[-1])
finally:
    shutil.rmtree(d)

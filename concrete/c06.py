from c05 import through
from trees import *


@trial("C06", 120)
def arrays(rng):
    through(rng, [("disc",), ("disc", "static"), ("disc", "disc", "cont")][int(rng.integers(3))], "discrete frames")


@trial("C06", 120)
def lookups(rng):
    w = World(rng, kinds=[("disc",), ("disc", "static"), ("disc", "disc", "cont")][int(rng.integers(3))])
    for _ in range(3):
        a, b = pair(rng, w)
        t = w.out_times(a, b)
        if t is not None and len(t) == 0:
            continue
        tr, q, ts = w.frames[a].rf.lookup_transform(w.ref(b))
        same_times(ts, t, w.datetimes, "timestamps of the lookup")
        wt, wq = w.transform(a, b, t)
        close(tr, wt, "translation of the latest event", tol=1e-6, details=w.describe(a, b))
        close(q, wq, "rotation of the latest event", tol=1e-6, details=w.describe(a, b))


@trial("C06", 60)
def exact_switch(rng):
    """Changes exactly at the event; integer, float and datetime stamps; repeated stamps take the last."""
    n = int(rng.integers(1, 6))
    t = np.sort(rng.choice(np.arange(0, 20), n, replace=bool(rng.random() < 0.3)))
    unit = [None, "s", "ms", "us", "ns"][int(rng.integers(5))]
    tr, q = rng.normal(size=(n, 3)), quats(rng, n)
    root = rbm.ReferenceFrame("root")
    rf = rbm.ReferenceFrame("f", parent=root, translation=tr, rotation=q, timestamps=stamps(t, unit), discrete=True)
    x = np.arange(-3, 24)
    eps = 0 if unit is not None else rng.choice([0.0, 1e-6, -1e-6])
    p = rng.normal(size=(len(x), 3))
    r, ts = rf.transform_points(p, root, timestamps=stamps(x + eps, unit), return_timestamps=True)
    check(len(ts) == len(x), "the range is not restricted")
    for i, y in enumerate(x + eps):
        e = max([k for k in range(n) if t[k] <= y], default=0)
        close(r[i], rot(q[e], p[i]) + tr[e], "event in force")

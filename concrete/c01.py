import warnings

from trees import *


def _quat_close(got, want, what, details=""):
    close(got, want, what, tol=1e-6, details=details)


@trial("C01", 250)
def composition(rng):
    w = World(rng)
    for _ in range(3):
        a, b = pair(rng, w)
        t = w.out_times(a, b)
        if t is not None and len(t) == 0:
            continue
        d = w.describe(a, b)
        tr, q, ts = w.frames[a].rf.lookup_transform(w.ref(b))
        same_times(ts, t, w.datetimes, "timestamps of the lookup")
        wt, wq = w.transform(a, b, t)
        close(tr, wt, "translation is the composition along the path", tol=1e-6, details=d)
        _quat_close(q, wq, "rotation is the composition along the path", details=d)
        if a == b:
            close(tr, np.zeros(3), "translation into itself", tol=0)
            close(q, [1.0, 0, 0, 0], "rotation into itself", tol=0)


@trial("C01", 60)
def wrappers(rng):
    w = World(rng)
    a, b = pair(rng, w)
    t = w.out_times(a, b)
    if t is not None and len(t) == 0:
        return
    wt, wq = w.transform(a, b, t)
    for fn, names in ((rbm.lookup_transform, ("translation", "rotation")), (rbm.lookup_pose, ("position", "orientation"))):
        x, y = w.ref(a), w.ref(b)
        r = fn(x, y)
        check(len(r) == 2, "two results")
        close(r[0], wt, "translation", tol=1e-6)
        close(r[1], wq, "rotation", tol=1e-6)
        r = fn(x, y, return_timestamps=True)
        same_times(r[2], t, w.datetimes, "timestamps")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = fn(x, y, as_dataset=True)
        close(ds[names[0]].values, wt, "dataset translation", tol=1e-6)
        close(ds[names[1]].values, wq, "dataset rotation", tol=1e-6)
        fr = w.frames[a if names[0] == "translation" else b].rf.name
        check(ds[names[0]].attrs["reference_frame"] == fr, "reference frame attribute")
        if t is not None:
            same_times(ds.time.values, t, w.datetimes, "dataset timestamps")


@trial("C01", 40)
def off_path(rng):
    """Frames off the path have no influence."""
    w = World(rng, size=int(rng.integers(3, 8)), register=False)
    a, b = pair(rng, w)
    t = w.out_times(a, b)
    if t is not None and len(t) == 0:
        return
    r1 = w.frames[a].rf.lookup_transform(w.frames[b].rf)
    for i in set(w.chain(a) + w.chain(b)):
        f = random_frame(rng, i, ("static", "cont", "disc"), UNITS[0] if w.datetimes else None)
        kw = {} if f.t is None else dict(timestamps=stamps(f.t, f.unit), discrete=f.kind == "disc")
        f.rf = rbm.ReferenceFrame("x%d" % i, w.frames[i].rf, f.tr, f.q, **kw)
        w.frames.append(f)
    r2 = w.frames[a].rf.lookup_transform(w.frames[b].rf)
    for x, y in zip(r1, r2):
        check((x is None) == (y is None) and (x is None or np.array_equal(x, y)), "independent of the frames off the path")


@trial("C01", 40)
def deep(rng):
    w = World(rng, size=2, kinds=("static",))
    k = int(rng.integers(5, 12))
    for side in range(2):
        p = 0
        for i in range(k):
            f = random_frame(rng, p, ("static", "static", "disc"), None if not w.datetimes else "ns")
            kw = {} if f.t is None else dict(timestamps=stamps(f.t, f.unit), discrete=True)
            f.rf = rbm.ReferenceFrame("d%d_%d" % (side, i), w.frames[p].rf, f.tr, f.q, **kw)
            w.frames.append(f)
            p = len(w.frames) - 1
    a, b = len(w.frames) - 1, 1 + k
    t = w.out_times(a, b)
    tr, q, ts = w.frames[a].rf.lookup_transform(w.frames[b].rf)
    same_times(ts, t, w.datetimes, "timestamps")
    wt, wq = w.transform(a, b, t)
    close(tr, wt, "translation along a deep path", tol=1e-6)
    close(q, wq, "rotation along a deep path", tol=1e-6)

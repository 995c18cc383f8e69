from c05 import apply, WHAT
from trees import *


def values(rng, what, shape):
    return quats(rng, *shape) if what == "quaternions" else rng.normal(size=tuple(shape) + (3,)) * 3


@trial("C02", 150)
def looked_up(rng):
    """The transform applied to the data is the looked-up one."""
    w = World(rng)
    for _ in range(3):
        a, b = pair(rng, w)
        what = WHAT[int(rng.integers(3))]
        to = w.out_times(a, b)
        if to is not None and len(to) == 0:
            continue
        shape = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(3)))] if to is None else []
        v = values(rng, what, shape)
        keep = v.copy()
        f = getattr(w.frames[a].rf, "transform_" + what)
        r, ts = f(v, w.ref(b), return_timestamps=True)
        tr, q = w.transform(a, b, to)
        want = apply(what, tr, np.broadcast_to(q, (q.shape if to is not None else v.shape[:-1] + (4,))), v)
        close(r, want, "looked-up transform applied to " + what, tol=1e-6, details=w.describe(a, b))
        g = getattr(rbm, "transform_" + what)
        r2 = g(v, into=w.ref(b), outof=w.frames[a].rf)
        close(r2, r, "module function", tol=1e-9)
        r3 = g(v, into=w.ref(b), outof=w.ref(a), return_timestamps=None)
        check(isinstance(r3, tuple) == (to is not None), "timestamps returned when there are any")
        if what == "vectors":
            close(np.linalg.norm(r, axis=-1), np.broadcast_to(np.linalg.norm(v, axis=-1), r.shape[:-1]), "lengths", tol=1e-7)
        unchanged([keep], [v], "data")


@trial("C02", 100)
def routes(rng):
    """Static frames: identity, there and back, direct and indirect routes."""
    w = World(rng, kinds=("static",), size=int(rng.integers(3, 8)))
    n = len(w.frames)
    a, b, c = (int(rng.integers(n)) for _ in range(3))
    fa, fb, fc = (w.frames[i].rf for i in (a, b, c))
    for what in WHAT:
        v = values(rng, what, [int(rng.integers(1, 4)) for _ in range(int(rng.integers(3)))])
        f = lambda x, src, dst: getattr(src, "transform_" + what)(x, dst)
        close(f(v, fa, fa), v, "into itself", tol=1e-12)
        close(f(f(v, fa, fb), fb, fa), v, "there and back", tol=1e-6)
        close(f(f(v, fa, fb), fb, fc), f(v, fa, fc), "through an intermediate frame", tol=1e-6)


@trial("C02", 60)
def moving_routes(rng):
    w = World(rng, kinds=("cont", "static", "disc"), size=int(rng.integers(2, 6)))
    a, b = pair(rng, w)
    base = np.arange(0, 42)
    t = base if w.datetimes else base * 0.25
    to = w.out_times(a, b, t)
    if len(to) < 3:
        return
    unit = "ns" if w.datetimes else None
    for what in WHAT:
        v = smooth_quats(rng, len(t)) if what == "quaternions" else rng.normal(size=(len(t), 3))
        x, tx = getattr(w.frames[a].rf, "transform_" + what)(v, w.ref(b), timestamps=stamps(t, unit), return_timestamps=True)
        y, ty = getattr(w.frames[b].rf, "transform_" + what)(x, w.ref(a), timestamps=tx, return_timestamps=True)
        same_times(ty, to, w.datetimes, "there and back")
        want = v[np.searchsorted(t, to)]
        if what == "quaternions" and np.any(np.sum(x[1:] * x[:-1], -1) < 0):
            continue
        close(y, want, "there and back (moving)", tol=1e-5, details=w.describe(a, b))

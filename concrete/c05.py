from c04 import array_times
from trees import *


def apply(what, tr, q, v):
    if what == "quaternions":
        return qmul(q, v)
    r = rot(q, v)
    return r + tr if what == "points" else r


WHAT = ["points", "vectors", "quaternions"]


def through(rng, kinds, tag):
    """A timestamped array (or a single vector) through a random path."""
    w = World(rng, kinds=kinds)
    for _ in range(3):
        a, b = pair(rng, w)
        what = WHAT[int(rng.integers(3))]
        t, unit = array_times(rng, w)
        to = w.out_times(a, b, t)
        if len(to) == 0:
            continue
        arr = quats(rng, len(t)) if what == "quaternions" else rng.normal(size=(len(t), 3))
        r, ts = getattr(w.frames[a].rf, "transform_" + what)(arr, w.ref(b), timestamps=stamps(t, unit), return_timestamps=True)
        tr, q = w.transform(a, b, to)
        close(r, apply(what, tr, q, arr[np.searchsorted(t, to)]), tag + ": array with timestamps", tol=1e-6, details=w.describe(a, b))
        to = w.out_times(a, b)
        if to is not None and len(to) == 0:
            continue
        v = quats(rng) if what == "quaternions" else rng.normal(size=3)
        r, ts = getattr(w.frames[a].rf, "transform_" + what)(v, w.ref(b), return_timestamps=True)
        tr, q = w.transform(a, b, to)
        close(r, apply(what, tr, q, v), tag + ": single vector", tol=1e-6, details=w.describe(a, b))


@trial("C05", 120)
def arrays(rng):
    through(rng, ("static", "cont", "cont", "disc"), "interpolated frames")


@trial("C05", 60)
def own_samples(rng):
    dt = bool(rng.random() < 0.5)
    f = random_frame(rng, 0, ("cont",), UNITS[int(rng.integers(4))] if dt else None)
    root = rbm.ReferenceFrame("root")
    rf = rbm.ReferenceFrame("f", parent=root, translation=f.tr, rotation=f.q, timestamps=stamps(f.t, f.unit))
    tr, q, ts = rf.lookup_transform(root)
    same_times(ts, f.t, dt, "own timestamps")
    close(tr, f.tr, "own translations", tol=1e-9)
    close(q, f.q, "own rotations", tol=1e-7)


@trial("C05", 80)
def units(rng):
    """The time unit of datetime timestamps makes no difference."""
    fs = [random_frame(rng, 0, ("cont", "cont", "disc"), "s") for _ in range(3)]
    n = int(rng.integers(2, 9))
    t = np.sort(rng.choice(np.arange(0, 40), n, replace=False))
    v = rng.normal(size=(n, 3))
    res = []
    for _ in range(3):
        u = [UNITS[int(rng.integers(4))] for _ in range(4)]
        rf = rbm.ReferenceFrame("root")
        root = rf
        for f, x in zip(fs, u):
            rf = rbm.ReferenceFrame("f", parent=rf, translation=f.tr, rotation=f.q, timestamps=stamps(f.t, x), discrete=f.kind == "disc")
        try:
            r, ts = rf.transform_points(v, root, timestamps=stamps(t, u[3]), return_timestamps=True)
        except Exception as e:
            r, ts = type(e).__name__, None
        res.append((r, ts))
    for r, ts in res[1:]:
        if isinstance(res[0][0], str) or isinstance(r, str):
            check(isinstance(r, str) == isinstance(res[0][0], str), "units: same outcome", "%s %s" % (r, res[0][0]))
            continue
        check(bool(np.all(ts.astype("datetime64[ns]") == res[0][1].astype("datetime64[ns]"))), "units: same timestamps")
        close(r, res[0][0], "units: same numbers", tol=1e-7)


@trial("C05", 100)
def matched(rng):
    """Arrays are interpolated at the first one's timestamps."""
    dt = bool(rng.random() < 0.5)
    arrays, spec = [], []
    for k in range(int(rng.integers(2, 4))):
        n = int(rng.integers(3, 9))
        t = np.sort(rng.choice(np.arange(0, 30), n, replace=False))
        t = t if dt else t * 0.25
        kind = int(rng.integers(4)) if k else 0
        a = [
            rng.normal(size=(n, 3)),
            smooth_quats(rng, n, unit=True),
            rng.normal(size=(n, 2, 3)),
            np.stack([smooth_quats(rng, n, unit=True) for _ in range(2)], 1),
        ][kind]
        if k and rng.random() < 0.25:
            a = a[0] if kind != 2 else rng.normal(size=3)
            arrays.append((a, None))
            spec.append((None, a, kind))
        else:
            arrays.append((a, stamps(t, UNITS[int(rng.integers(4))] if dt else None)))
            spec.append((t, a, kind))
    rg = [t for t, _, _ in spec if t is not None]
    lo, hi = max(t[0] for t in rg), min(t[-1] for t in rg)
    x = rg[0][(rg[0] >= lo) & (rg[0] <= hi)]
    if not len(x):
        return
    r = rbm.ReferenceFrame._match_arrays(arrays)
    for (t, a, kind), got in zip(spec, r):
        if t is None:
            close(got, np.broadcast_to(a, (len(x),) + a.shape), "single vector repeated")
        elif kind in (1, 3):
            want = [as_float_array(squad(as_quat_array(c), t.astype(float), x.astype(float))) for c in a.reshape(len(a), -1, 4).swapaxes(0, 1)]
            close(got, np.stack(want, 1).reshape((len(x),) + a.shape[1:]), "quaternions interpolated", tol=1e-6)
        else:
            f = a.reshape(len(a), -1)
            want = np.stack([np.interp(x, t, f[:, c]) for c in range(f.shape[1])], -1).reshape((len(x),) + a.shape[1:])
            close(got, want, "vectors interpolated", tol=1e-7)

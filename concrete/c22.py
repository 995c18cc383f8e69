from c02 import values
from c05 import WHAT
from trees import *


def rejected(f, exc, what):
    try:
        r = f()
    except Exception as e:
        if not isinstance(e, exc):
            raise Violation(what + ": %s instead of %s" % (type(e).__name__, getattr(exc, "__name__", exc)), str(e))
        return
    raise Violation(what + ": accepted", repr(r)[:200])


def state(frames):
    return sorted(rbm.registry), [(f.parent, tuple(f.children)) for f in frames]


@trial("C22", 200)
def constructors(rng):
    root = rbm.ReferenceFrame("root")
    n = int(rng.integers(1, 6))
    moving = bool(rng.random() < 0.6)
    shape = (n,) if moving else ()
    kw = dict(translation=rng.normal(size=shape + (3,)), rotation=quats(rng, *shape))
    if moving:
        kw["timestamps"] = np.arange(n) * 1.0
        if rng.random() < 0.5:
            kw["timestamps"] = stamps(np.arange(n), UNITS[int(rng.integers(4))])
    opt = dict(inverse=bool(rng.random() < 0.5), discrete=bool(moving and rng.random() < 0.5))
    rbm.ReferenceFrame("good", root, **kw, **opt)
    for drop in ("translation", "rotation"):
        rbm.ReferenceFrame("good", root, **{k: v for k, v in kw.items() if k != drop}, **opt)
    make = rbm.ReferenceFrame if rng.random() < 0.5 else rbm.register_frame
    bad = dict(kw)
    which = ["translation", "rotation"][int(rng.integers(2))]
    w = 3 if which == "translation" else 4
    shapes = [(), (w,), (1, w), (n, w), (n, w + 1), (n + 1, w), (n, w, 1), (1, n, w), (w, n), (w + 1,), (n,), (n, 1)]
    s = shapes[int(rng.integers(len(shapes)))]
    if s == shape + (w,):
        return
    bad[which] = np.ones(s)
    if rng.random() < 0.4:
        bad.pop("rotation" if which == "translation" else "translation")
    rejected(lambda: make("bad", parent=root, **bad, **opt), ValueError, "%s of shape %s with timestamps %s" % (which, s, moving))
    for ts in (np.array(1.0), np.arange(2 * n).reshape(2, n) * 1.0, np.arange(n).reshape(n, 1) * 1.0):
        rejected(lambda: make("bad", parent=root, timestamps=ts), ValueError, "timestamps of shape %s" % (ts.shape,))
    for k in kw:
        rejected(lambda: make("bad", **{k: kw[k]}), ValueError, "%s without a parent" % k)
    rejected(lambda: make("bad", timestamps=np.arange(0)), ValueError, "timestamps without a parent")
    rejected(lambda: make("bad", parent=root, discrete=True), ValueError, "discrete without timestamps")
    rejected(lambda: make("bad", discrete=True), ValueError, "discrete without timestamps")
    check("bad" not in rbm.registry, "nothing is registered")


@trial("C22", 150)
def monotonic(rng):
    root = rbm.ReferenceFrame("root")
    n = int(rng.integers(2, 8))
    t = np.sort(rng.choice(np.arange(0, 30), n, replace=False))
    i = int(rng.integers(n - 1))
    t[[i, i + 1]] = t[[i + 1, i]]
    ts = stamps(t, UNITS[int(rng.integers(4))]) if rng.random() < 0.5 else t * 0.1
    if rng.random() < 0.3 and ts.dtype.kind == "f":
        ts = t.astype(int)
    disc = bool(rng.random() < 0.5)

    def use():
        f = rbm.ReferenceFrame("f", root, rng.normal(size=(n, 3)), quats(rng, n), ts, discrete=disc)
        g = rbm.ReferenceFrame("g", f, rng.normal(size=3))
        k = int(rng.integers(4))
        if k == 0:
            return f.lookup_transform(root)
        if k == 1:
            return root.lookup_transform(g)
        if k == 2:
            return g.transform_points(rng.normal(size=3), root)
        return f.lookup_twist(root)

    rejected(use, ValueError, "frame with timestamps that go backwards")
    f = rbm.ReferenceFrame("f", root, rng.normal(size=3), quats(rng))
    for what in WHAT:
        v = values(rng, what, [n])
        rejected(lambda: getattr(f, "transform_" + what)(v, root, timestamps=ts), ValueError, "array with timestamps that go backwards")
    v = rng.normal(size=(n, 3))
    rejected(lambda: f.transform_angular_velocity(v, root, timestamps=ts), ValueError, "velocity with timestamps that go backwards")
    rejected(lambda: f.transform_linear_velocity(v, root, moving_frame=f, timestamps=ts), ValueError, "velocity with timestamps that go backwards")


@trial("C22", 150)
def arrays(rng):
    w = World(rng, kinds=("static",))
    a, b = pair(rng, w)
    f, g = w.frames[a].rf, w.ref(b)
    for what in WHAT + ["angular_velocity", "linear_velocity"]:
        k = 4 if what == "quaternions" else 3
        nd = int(rng.integers(1, 4))
        shape = [int(rng.integers(1, 6)) for _ in range(nd)]
        ax = int(rng.integers(nd))
        shape[ax] = k
        kw = {"moving_frame": f} if what == "linear_velocity" else {}
        call = lambda v, **o: getattr(f, "transform_" + what)(v, g, axis=ax if rng.random() < 0.5 else ax - nd, **kw, **o)
        good = quats(rng, *shape[:-1]) if what == "quaternions" and ax == nd - 1 else rng.normal(size=shape) + 1
        call(good)
        bad = list(shape)
        bad[ax] = int(rng.choice([x for x in range(6) if x != k]))
        rejected(lambda: call(np.ones(bad)), ValueError, "%s with length %d along the spatial axis" % (what, bad[ax]))
        if nd > 1:
            tx = int(rng.choice([i for i in range(nd) if i != ax]))
            n = shape[tx]
            call(good, timestamps=np.arange(n) * 1.0, time_axis=tx) if n > 1 else None
            m = int(rng.choice([x for x in range(1, 8) if x != n]))
            rejected(lambda: call(good, timestamps=np.arange(m) * 1.0, time_axis=tx), ValueError, "timestamps of another length")
            rejected(lambda: call(good, timestamps=np.arange(2 * n).reshape(2, n), time_axis=tx), ValueError, "two-dimensional timestamps")


@trial("C22", 60)
def names(rng):
    root = rbm.ReferenceFrame("root")
    rbm.register_frame("world")
    rbm.register_frame("f", parent="world", translation=rng.normal(size=3))
    frames = list(rbm.registry.values())
    before = state(frames)
    v = rng.normal(size=3)
    for bad, exc in (("nope", ValueError), ("", ValueError), (3, TypeError), (["f"], TypeError), (rbm, TypeError), (b"f", TypeError)):
        rejected(lambda: rbm.lookup_transform("f", bad), exc, "unknown target")
        rejected(lambda: rbm.lookup_transform(bad, "f"), exc, "unknown source")
        rejected(lambda: rbm.lookup_pose(bad, "f"), exc, "unknown frame")
        rejected(lambda: rbm.lookup_twist(bad), exc, "unknown frame")
        rejected(lambda: rbm.transform_vectors(v, bad, "f"), exc, "unknown target")
        rejected(lambda: rbm.transform_points(v, "f", bad), exc, "unknown source")
        rejected(lambda: rbm.registry["f"].lookup_transform(bad), exc, "unknown target")
        rejected(lambda: rbm.ReferenceFrame("x", bad), exc, "unknown parent")
        rejected(lambda: rbm.register_frame("x", parent=bad), exc, "unknown parent")
        if exc is ValueError:
            rejected(lambda: rbm.deregister_frame(bad), exc, "unknown name")
    check(state(frames) == before, "nothing has changed")


@trial("C22", 150)
def shapes(rng):
    nd = int(rng.integers(1, 4))
    q = [int(rng.integers(1, 4)) for _ in range(nd)]
    v = list(q)
    if rng.random() < 0.5:
        for i in range(nd):
            if rng.random() < 0.3:
                v[i] = int(rng.integers(1, 5))
    elif rng.random() < 0.5:
        v = v[1:] if rng.random() < 0.5 else v + [2]
    good = len(v) == len(q) and all(x == y or x == 1 or y == 1 for x, y in zip(q, v))
    k = 3 if rng.random() < 0.8 else int(rng.choice([1, 2, 4]))
    f = lambda: rbm.rotate_vectors(quats(rng, *q) if rng.random() < 0.5 else as_quat_array(quats(rng, *q)), rng.normal(size=v + [k]))
    if good and k == 3:
        f()
    else:
        rejected(f, ValueError, "quaternions %s and vectors %s" % (q, v + [k]))
    a = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
    b = list(rng.permutation(a)) if rng.random() < 0.6 else [int(rng.integers(1, 4)) for _ in range(len(a))]
    for g in (rbm.best_fit_rotation, rbm.best_fit_transform):
        h = lambda: g(rng.normal(size=list(a) + [3]), rng.normal(size=list(b) + [3]))
        if list(a) == list(b):
            h()
        else:
            rejected(h, ValueError, "vectors %s and %s" % (a, list(b)))

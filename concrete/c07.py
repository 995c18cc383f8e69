from c04 import array_times
from c05 import apply, WHAT
from trees import *


def layout(rng, v, spatial, time):
    """v (time first, spatial last, or spatial last) with its axes at random positions: (array, axis, time_axis)."""
    nd = v.ndim
    ax = int(rng.integers(nd))
    if time:
        tx = int(rng.choice([i for i in range(nd) if i != ax]))
        out = np.moveaxis(v, [0, -1], [tx, ax])
    else:
        tx = int(rng.integers(nd))
        out = np.moveaxis(v, -1, ax)
    sign = lambda a: a - nd if rng.random() < 0.5 else a
    if rng.random() < 0.3:
        out = np.asfortranarray(out)
    return out, sign(ax), sign(tx)


def back(r, ax, tx, time):
    return np.moveaxis(r, [tx, ax], [0, -1]) if time else np.moveaxis(r, ax, -1)


def data(rng, what, shape):
    if what == "quaternions":
        return np.stack([smooth_quats(rng, shape[0]) for _ in range(int(np.prod(shape[1:])))], 1).reshape(tuple(shape) + (4,)) if shape else quats(rng)
    return rng.normal(size=tuple(shape) + (3,))


@trial("C07", 150)
def transforms(rng):
    w = World(rng)
    for _ in range(3):
        a, b = pair(rng, w)
        what = WHAT[int(rng.integers(3))]
        t, unit = array_times(rng, w)
        to = w.out_times(a, b, t)
        if len(to) == 0:
            continue
        v = data(rng, what, [len(t)] + [int(rng.integers(1, 5)) for _ in range(int(rng.integers(3)))])
        x, ax, tx = layout(rng, v, None, True)
        f = getattr(w.frames[a].rf, "transform_" + what)
        kw = dict(axis=ax, time_axis=tx, timestamps=stamps(t, unit), return_timestamps=True)
        if rng.random() < 0.5:
            r, ts = f(x, w.ref(b), **kw)
        else:
            r, ts = getattr(rbm, "transform_" + what)(x, w.ref(b), w.ref(a), **kw)
        shape = list(x.shape)
        shape[tx] = len(to)
        check(r.shape == tuple(shape), "layout of the input", "%s instead of %s" % (r.shape, tuple(shape)))
        tr, q = w.transform(a, b, to)
        u = v[np.searchsorted(t, to)]
        ex = lambda z: z.reshape((len(to),) + (1,) * (v.ndim - 2) + z.shape[-1:])
        want = apply(what, ex(tr), np.broadcast_to(ex(q), u.shape[:-1] + (4,)), u)
        close(back(r, ax, tx, True), want, "independent of the layout (timestamps)", tol=1e-6, details="%s axis %d time axis %d" % (what, ax, tx))


@trial("C07", 120)
def static_transforms(rng):
    w = World(rng, kinds=("static",))
    for _ in range(3):
        a, b = pair(rng, w)
        what = WHAT[int(rng.integers(3))]
        shape = [int(rng.integers(1, 5)) for _ in range(int(rng.integers(4)))]
        v = quats(rng, *shape) if what == "quaternions" else rng.normal(size=tuple(shape) + (3,))
        x, ax, tx = layout(rng, v, None, False)
        r = getattr(w.frames[a].rf, "transform_" + what)(x, w.ref(b), axis=ax, time_axis=tx)
        check(r.shape == x.shape, "layout of the input", "%s" % (r.shape,))
        tr, q = w.transform(a, b, None)
        close(back(r, ax, tx, False), apply(what, tr, np.broadcast_to(q, v.shape[:-1] + (4,)), v), "independent of the layout", tol=1e-6)


@trial("C07", 100)
def unstamped_between_moving_frames(rng):
    """Arrays without timestamps: each vector is transformed as on its own."""
    w = World(rng)
    for _ in range(3):
        a, b = pair(rng, w)
        to = w.out_times(a, b)
        if to is not None and len(to) == 0:
            continue
        what = WHAT[int(rng.integers(3))]
        shape = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
        v = quats(rng, *shape) if what == "quaternions" else rng.normal(size=tuple(shape) + (3,))
        ax = int(rng.integers(v.ndim))
        x = np.moveaxis(v, -1, ax)
        s = ax if rng.random() < 0.5 else ax - v.ndim
        r, ts = getattr(w.frames[a].rf, "transform_" + what)(x, w.ref(b), axis=s, return_timestamps=True)
        same_times(ts, to, w.datetimes, "timestamps")
        k = 0 if to is None else 1
        check(r.shape == (() if to is None else (len(to),)) + x.shape, "layout of the input", "%s %s" % (r.shape, x.shape))
        r = np.moveaxis(r, k + ax, -1)
        f = getattr(w.frames[a].rf, "transform_" + what)
        for i in np.ndindex(*shape):
            close(r[(slice(None),) * k + i], f(v[i], w.ref(b)), "each vector as on its own", tol=1e-9)


@trial("C07", 60)
def velocities(rng):
    w = World(rng, kinds=("static", "cont", "cont"), size=int(rng.integers(2, 5)))
    a, b = pair(rng, w)
    t, unit = array_times(rng, w)
    v = rng.normal(size=[len(t)] + [int(rng.integers(1, 4)) for _ in range(int(rng.integers(3)))] + [3])
    x, ax, tx = layout(rng, v, None, True)
    what = ["reference_frame", "moving_frame", "representation_frame"][int(rng.integers(3))]
    c = int(rng.integers(len(w.frames)))
    for name, kw in (("angular", {}), ("linear", {"moving_frame": w.frames[c].rf, "reference_frame": w.frames[c].rf})):
        f = getattr(w.frames[a].rf, "transform_%s_velocity" % name)
        kw = dict(kw, what=what, timestamps=stamps(t, unit), return_timestamps=True)
        try:
            want, tw = f(v, w.ref(b), **kw)
        except (IndexError, ValueError):
            continue
        r, ts = f(x, w.ref(b), axis=ax, time_axis=tx, **kw)
        check(np.array_equal(ts, tw), "same timestamps")
        close(back(r, ax, tx, True), want, "velocity independent of the layout", tol=1e-6)

from trees import *

WHATS = ["reference_frame", "moving_frame", "representation_frame"]


def at(v, ts, x):
    """A looked-up quantity at times x."""
    if ts is None:
        return np.broadcast_to(v, (len(x), 3)) if x is not None else v
    f = ts.astype("datetime64[ns]").astype(float) if ts.dtype.kind == "M" else ts
    return np.stack([np.interp(x, f, v[:, c]) for c in range(3)], -1)


def num(ts):
    return None if ts is None else ts.astype("datetime64[ns]").astype(float) if ts.dtype.kind == "M" else ts


@trial("C20", 200)
def formulas(rng):
    kinds = [("cont",), ("static", "cont", "cont"), ("static",)][int(rng.integers(3))]
    w = World(rng, kinds=kinds, size=int(rng.integers(2, 6)))
    pick = lambda: w.frames[int(rng.integers(len(w.frames)))].rf
    a, b, c, d = pick(), pick(), pick(), pick()
    what, kind = WHATS[int(rng.integers(3))], ["angular", "linear"][int(rng.integers(2))]
    stamped = bool(rng.random() < 0.7)
    n = int(rng.integers(4, 12))
    t = np.sort(rng.choice(np.arange(0, 42), n, replace=False))
    ts = stamps(t if w.datetimes else t * 0.25, UNITS[int(rng.integers(4))] if w.datetimes else None) if stamped else None
    v = rng.normal(size=(n, 3)) if stamped else rng.normal(size=3)
    lk = dict(allow_static=True, return_timestamps=True)
    try:
        rot, rts = a.transform_vectors(v, b, timestamps=ts, return_timestamps=True)
        lin = ang = lev = (np.zeros(3), None)
        if what == "representation_frame":
            pass
        elif kind == "angular":
            ang = a.lookup_angular_velocity(b, b, **lk) if what == WHATS[0] else b.lookup_angular_velocity(a, b, **lk)
        else:
            if what == WHATS[0]:
                l, g, gts = a.lookup_twist(b, b, **lk)
                lin, ang = (l, gts), (g, gts)
                p, _, pts = c.lookup_transform(a)
            else:
                lin = b.lookup_linear_velocity(a, b, **lk)
                ang = a.lookup_angular_velocity(d, b, **lk)
                p, _, pts = b.lookup_transform(a)
            lev = a.transform_vectors(p, b, timestamps=pts, return_timestamps=True)
    except (ValueError, IndexError):
        return
    els = [(rot, rts), lin, ang, lev]
    ranged = [num(e[1]) for e in els if e[1] is not None]
    if not ranged:
        x = None
    else:
        if any(len(r) < 2 for r in ranged):
            return
        lo, hi = max(r[0] for r in ranged), min(r[-1] for r in ranged)
        x = ranged[0][(ranged[0] >= lo) & (ranged[0] <= hi)]
        if not len(x):
            return
    want = at(rot, rts, x) + (at(*ang, x) if kind == "angular" else at(*lin, x) + np.cross(at(*ang, x), at(*lev, x)))
    kw = dict(what=what, timestamps=ts)
    if kind == "linear":
        kw.update(moving_frame=c, reference_frame=d)
    if rng.random() < 0.5:
        r, to = getattr(a, "transform_%s_velocity" % kind)(v, b, return_timestamps=True, **kw)
    else:
        r = getattr(rbm, "transform_%s_velocity" % kind)(v, into=b, outof=a, return_timestamps=None, **kw)
        check(isinstance(r, tuple) == (x is not None), "timestamps are returned when there are any")
        r, to = r if isinstance(r, tuple) else (r, None)
    check((to is None) == (x is None), "timestamps of the result")
    if x is not None:
        check(np.array_equal(num(to), x), "common timestamps")
    close(r, want, "%s velocity, %s" % (kind, what), tol=1e-6)


@trial("C20", 60)
def rotating_lever(rng):
    """A point fixed on a uniformly rotating frame: v = w x r."""
    n = 60
    t = np.linspace(0, 1, n)
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    speed = rng.uniform(0.5, 3)
    q = np.concatenate([np.cos(speed * t / 2)[:, None], np.sin(speed * t / 2)[:, None] * axis], 1)
    vel = rng.normal(size=3)
    root = rbm.ReferenceFrame("root")
    body = rbm.ReferenceFrame("body", parent=root, translation=t[:, None] * vel, rotation=q, timestamps=t)
    r = rng.normal(size=3)
    tip = rbm.ReferenceFrame("tip", parent=body, translation=r, rotation=quats(rng))
    # the tip rests in the body frame
    got = body.transform_linear_velocity(np.zeros((n, 3)), root, what="reference_frame", moving_frame=tip, timestamps=t)
    rr = rot(q, np.broadcast_to(r, (n, 3)))
    want = vel + np.cross(speed * axis, rr)
    close(got[3:-3], want[3:-3], "velocity of a point fixed on a moving body", tol=1e-2)
    w = rng.normal(size=(n, 3))
    got = body.transform_angular_velocity(w, root, timestamps=t)
    close(got[3:-3], (rot(q, w) + speed * axis)[3:-3], "angular velocities add up", tol=1e-2)
    # moving frame: velocity of the body known, velocity of the tip wanted
    got = tip.transform_angular_velocity(w, body, what="moving_frame", timestamps=t)
    close(got, rot(np.broadcast_to(tip.rotation, (n, 4)), w), "no relative rotation", tol=1e-7)

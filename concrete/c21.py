import xarray as xr
from trees import *
from rigid_body_motion.core import _estimate_linear_velocity, _estimate_angular_velocity

NAMES = {"twist": "lookup_twist", "linear": "lookup_linear_velocity", "angular": "lookup_angular_velocity"}


def num(ts):
    return ts.astype("datetime64[ns]").astype(np.int64).astype(float) if ts.dtype.kind == "M" else np.asarray(ts, float)


def at(v, ts, x):
    return np.stack([np.interp(x, num(ts), v[:, c]) for c in range(3)], -1)


def options(rng):
    kw = {}
    if rng.random() < 0.4:
        kw["outlier_thresh"] = float(rng.uniform(0.5, 5))
    if rng.random() < 0.4:
        kw["mode"] = ["quaternion", "rotation_vector"][int(rng.integers(2))]
    return kw


def parts(f, ref, rep, kw, which):
    """[(velocity, timestamps)] composed from the transform, the estimator and the rotation."""
    t, q, ts = f.lookup_transform(ref)
    if ts is None:
        return None
    out = []
    if which != "angular":
        v = _estimate_linear_velocity(t, ts, outlier_thresh=kw.get("outlier_thresh"))
        out.append(ref.transform_vectors(v, rep, timestamps=ts, return_timestamps=True))
    if which != "linear":
        o = {"outlier_thresh": kw.get("outlier_thresh")} if which == "angular" else {}
        v = _estimate_angular_velocity(q, ts, mode=kw.get("mode", "quaternion"), **o)
        out.append(f.transform_vectors(v, rep, timestamps=ts, return_timestamps=True))
    return out


@trial("C21", 200)
def lookups(rng):
    kinds = [("cont",), ("static", "cont", "cont"), ("static", "disc", "cont")][int(rng.integers(3))]
    w = World(rng, kinds=kinds, size=int(rng.integers(2, 6)))
    pick = lambda: int(rng.integers(len(w.frames)))
    a, b, c = pick(), pick(), pick()
    f, rb, rc = (w.frames[i].rf for i in (a, b, c))
    which = ["twist", "linear", "angular"][int(rng.integers(3))]
    kw = options(rng)
    if which == "linear":
        kw.pop("mode", None)
    func = bool(rng.random() < 0.5)
    args = {}
    if rng.random() < 0.7 or f.parent is None:
        args["reference"] = w.ref(b)
    else:
        rb = f.parent
    if rng.random() < 0.7 or not func and f.parent is None:
        args["represent_in"] = w.ref(c)
    else:
        rc = rb if func else f.parent
    try:
        want = parts(f, rb, rc, kw, which)
        if want is not None and any(len(x[1]) < 2 for x in want):
            return
    except (ValueError, IndexError):
        return
    if func:
        call = lambda **k: getattr(rbm, NAMES[which])(w.ref(a), **args, **kw, **k)
    else:
        call = lambda **k: getattr(f, NAMES[which])(**args, **kw, **k)
    if want is None:
        raises(ValueError, call, "static transforms are rejected")
        if not func:
            r = call(allow_static=True, return_timestamps=True)
            check(r[-1] is None, "no timestamps")
            for v in r[:-1]:
                check(np.array_equal(v, np.zeros(3)), "zero velocity", repr(v))
        return
    r = call(return_timestamps=True)
    ts = r[-1]
    check(len(r) == len(want) + 1, "number of results")
    for v, (x, xts) in zip(r, want):
        check(v.shape == (len(ts), 3), "shape")
        check(bool(np.isin(num(ts), num(xts)).all()) or which == "twist", "timestamps")
        with np.errstate(invalid="ignore"):
            ref = at(x, xts, num(ts))
        # outlier removal leaves NaN at the ends; interpolation next to NaN may give NaN
        bad = np.isnan(x)
        bad[1:] |= np.isnan(x)[:-1]
        bad[:-1] |= np.isnan(x)[1:]
        fine = at(bad.astype(float), xts, num(ts)) == 0
        close(np.where(fine, v, 0), np.where(fine, ref, 0), "%s velocity in the requested frame" % which, tol=1e-6)
    if which == "twist":
        lo, hi = max(num(x[1])[0] for x in want), min(num(x[1])[-1] for x in want)
        grids = [num(x[1]) for x in want]
        check(any(np.array_equal(num(ts), g[(g >= lo) & (g <= hi)]) for g in grids), "common timestamps")
    plain = call()
    plain = plain if which == "twist" else (plain,)
    for v, x in zip(plain, r):
        check(np.array_equal(v, x, equal_nan=True), "with and without timestamps")
    if not func:
        return
    lab = call(**{"as_dataset" if which == "twist" else "as_dataarray": True})
    das = {"linear_velocity": r[0], "angular_velocity": r[-2]} if which == "twist" else {which + "_velocity": r[0]}
    for k, v in das.items():
        da = lab[k] if which == "twist" else lab
        check(da.dims == ("time", "cartesian_axis") and list(da.cartesian_axis.values) == ["x", "y", "z"], "labels")
        check(np.array_equal(da.values, v, equal_nan=True), "values of the labelled result")
        check(np.array_equal(num(da.time.values), num(ts)), "timestamps of the labelled result")
        got = tuple(da.attrs.get(n) for n in ("moving_frame", "reference_frame", "representation_frame"))
        check(got == (f.name, rb.name, rc.name), "frames of the labelled result", "%s" % (got,))
        check(da.attrs["motion_type"] == k, "motion type")


@trial("C21", 60)
def screw(rng):
    """Uniform rotation and translation, in every representation frame."""
    n = 50
    t = np.linspace(0, 1, n)
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    speed, vel = rng.uniform(0.5, 3), rng.normal(size=3)
    q = np.concatenate([np.cos(speed * t / 2)[:, None], np.sin(speed * t / 2)[:, None] * axis], 1)
    root = rbm.ReferenceFrame("root")
    mid = rbm.ReferenceFrame("mid", parent=root, translation=rng.normal(size=3), rotation=quats(rng, unit=True))
    body = rbm.ReferenceFrame("body", parent=mid, translation=t[:, None] * vel, rotation=q, timestamps=t)
    lv, av, ts = body.lookup_twist(root, root, return_timestamps=True)
    m = np.broadcast_to(mid.rotation, (n, 4))
    close(lv[3:-3], rot(m, np.broadcast_to(vel, (n, 3)))[3:-3], "linear velocity", tol=1e-2)
    close(av[3:-3], rot(m, np.broadcast_to(speed * axis, (n, 3)))[3:-3], "angular velocity", tol=1e-2)
    lv, av = body.lookup_twist(mid, body)
    close(lv[3:-3], rot(qinv(q), np.broadcast_to(vel, (n, 3)))[3:-3], "linear velocity in the moving frame", tol=1e-2)
    close(av[3:-3], np.broadcast_to(speed * axis, (n, 3))[3:-3], "angular velocity in the moving frame", tol=1e-2)

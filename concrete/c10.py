"""Nothing a caller handed over, and nothing a frame stores, changes in a call; a second call gives the same result."""
import contextlib
import io
import os
import sys
import types
import warnings

import matplotlib.pyplot as plt
import xarray as xr

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import rosstub
from trees import *

mods, made = rosstub.modules(world=types.SimpleNamespace(bags=[], shutdown=lambda: True, sleep=lambda dt: None))
sys.modules.update(mods)
from rigid_body_motion import plotting as pl
from rigid_body_motion import reference_frames as rf
from rigid_body_motion.ros import msg as M
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster, Transformer


def image(x, seen=None):
    """A comparable image of a value: everything reachable, at its current state."""
    seen = seen or {}
    if id(x) in seen:
        return ("seen", seen[id(x)])
    if isinstance(x, (np.ndarray, np.generic)):
        a = np.asarray(x)
        if a.dtype == np.quaternion:
            a = as_float_array(a)
            return ("quat", a.shape, a.tobytes())
        return ("array", a.dtype.str, a.shape, a.strides if isinstance(x, np.ndarray) else None,
                image(a.tolist()) if a.dtype == object else a.tobytes())
    seen = dict(seen)
    seen[id(x)] = len(seen)
    if isinstance(x, xr.DataArray):
        return ("da", x.dims, image(x.name), image(x.values), [(k, x.coords[k].dims, image(x.coords[k].values), image(x.coords[k].attrs)) for k in sorted(x.coords, key=str)],
                image(x.attrs))
    if isinstance(x, xr.Dataset):
        return ("ds", [(k, image(x[k])) for k in sorted(x.variables, key=str)], image(x.attrs))
    if isinstance(x, rf.ReferenceFrame):
        return ("frame", x.name, x.parent and x.parent.name, [c.name for c in x.children], image(x.translation), image(x.rotation), image(x.timestamps), x.discrete)
    if isinstance(x, dict):
        return ("dict", [(k, image(v, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [image(v, seen) for v in x])
    if isinstance(x, float):
        return ("float", repr(x))
    if isinstance(x, rosstub.Msg if hasattr(rosstub, "Msg") else ()):
        return ("msg", repr(rosstub.flat(x)))
    if x is None or isinstance(x, (int, str, bool, bytes)):
        return x
    return ("object", type(x).__name__)


def watch(f, args, kw=None, frames=(), again=True, bases=()):
    kw = kw or {}
    name = getattr(f, "__name__", str(f))
    watched = [list(args), kw, list(frames), dict(rf._registry), list(bases)]
    before = [image(x) for x in watched]
    got = []
    for k in range(2 if again else 1):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = ("ok", image(f(*args, **kw)))
            except Exception as e:
                r = ("raised", type(e).__name__, str(e))
        got.append(r)
        for what, b, x in zip(("an argument", "a keyword argument", "a stored frame", "the registry", "the array behind an argument"), before, watched):
            now = image(x)
            check(now == b, "%s modified %s" % (name, what), "call %d: %s -> %s" % (k + 1, str(b)[:600], str(now)[:600]))
    if again:
        check(got[0] == got[1], "%s: a second call gives the same result" % name, "%s then %s" % (str(got[0])[:500], str(got[1])[:500]))
    return got[0]


DTYPES = ["float64", "float64", "float32", "int64"]


def arr(rng, *shape, dtype=None, like=None):
    """An array, sometimes a view of a larger one, sometimes a list; and its base."""
    dtype = dtype or DTYPES[int(rng.integers(4))]
    data = rng.normal(size=shape) if like is None else like
    base = np.empty(tuple(s + 2 for s in data.shape), dtype=dtype)
    base[...] = rng.integers(-5, 5, size=base.shape)
    x = base[tuple(slice(1, 1 + s) for s in data.shape)]
    x[...] = data * (3 if dtype == "int64" else 1)
    c = rng.random()
    if c < 0.4:
        x = base = np.array(x)
    elif c < 0.45 and data.ndim:
        return x.tolist(), base
    return x, base


def da(rng, x, dims, t=None, attrs=None):
    co = {}
    x = np.asarray(x)
    if t is not None:
        co["time"] = np.array(t)
        if rng.random() < 0.5:
            co["phase"] = ("time", rng.normal(size=len(t)))
    if rng.random() < 0.5 and "axis" in dims:
        co["axis"] = list("wxyz"[-x.shape[dims.index("axis")]:])
    return xr.DataArray(x, co, dims, "thing", dict({"units": "m", "note": [1, 2]}, **(attrs or {})))


FUNCS = {"transform_points": 3, "transform_vectors": 3, "transform_quaternions": 4, "transform_angular_velocity": 3, "transform_linear_velocity": 3}


@trial("C10", 200)
def transforms(rng):
    w = World(rng, register=bool(rng.random() < 0.7), size=int(rng.integers(2, 6)))
    a, b = pair(rng, w)
    frames = [f.rf for f in w.frames]
    kind = list(FUNCS)[int(rng.integers(5))]
    width = FUNCS[kind]
    kw = {}
    if "velocity" in kind:
        kw["what"] = ["reference_frame", "moving_frame", "representation_frame"][int(rng.integers(3))]
        if "linear" in kind:
            kw["outlier_thresh"] = [None, 1.5][int(rng.integers(2))]
            kw["moving_frame"] = kw["reference_frame"] = w.ref(int(rng.integers(len(frames))))
        kw["cutoff"] = [None, None, 0.1][int(rng.integers(3))]
    out = w.out_times(a, b)
    moving = rng.random() < 0.7
    if moving:
        n = int(rng.integers(2, 9))
        t = np.arange(n) + 10 if out is None or len(out) < 2 or rng.random() < 0.3 else out
        # all units of the tree are whole seconds
        ts = stamps(t, UNITS[int(rng.integers(4))] if w.datetimes else None)
        if not w.datetimes:
            ts = np.asarray(t, float)
        shape = (len(t), width) + ((2,) if rng.random() < 0.3 else ())
        dims = ["time", "axis", "k"][:len(shape)]
        p = list(rng.permutation(len(shape)))
        data = rng.normal(size=shape).transpose(p)
        dims = [dims[i] for i in p]
    else:
        dims = ["axis", "k"][:int(rng.integers(1, 3))]
        data = rng.normal(size=(width, 5)[:len(dims)])
        ts = None
    if rng.random() < 0.5:
        x, base = arr(rng, like=data)
        args = [x, w.ref(b)]
        kw.update(outof=w.ref(a), axis=dims.index("axis"), return_timestamps=bool(rng.random() < 0.5))
        if ts is not None:
            kw.update(time_axis=dims.index("time"), timestamps=ts if rng.random() < 0.7 else ts.tolist())
        bases = [base]
    else:
        x = da(rng, data, dims, ts, {"representation_frame": "elsewhere"} if rng.random() < 0.5 else {})
        args, bases = [x, w.ref(b)], []
        kw.update(outof=w.ref(a), dim="axis")
        if ts is not None:
            kw["timestamps"] = "time"
    watch(getattr(rbm, kind), args, kw, frames, bases=bases)
    if rng.random() < 0.5 and not isinstance(x, (xr.DataArray, list)):
        kw.pop("outof")
        watch(getattr(frames[a], kind), args, kw, frames, bases=bases)


@trial("C10", 150)
def lookups(rng):
    w = World(rng, size=int(rng.integers(2, 7)))
    frames = [f.rf for f in w.frames]
    a, b = pair(rng, w)
    c = int(rng.integers(len(frames)))
    flag = lambda: bool(rng.random() < 0.5)
    opts = lambda: dict(represent_in=[None, w.ref(c)][int(rng.integers(2))], outlier_thresh=[None, 1.0][int(rng.integers(2))], cutoff=[None, None, 0.1][int(rng.integers(3))])
    for f in frames:
        if flag():
            watch(f.lookup_transform, [w.ref(b)], {}, frames)
            watch(f.get_transformation, [w.ref(b)], {}, frames)
    ds = flag()
    watch(rbm.lookup_transform, [w.ref(a), w.ref(b)], dict(as_dataset=ds, return_timestamps=not ds and flag()), frames)
    watch(rbm.lookup_pose, [w.ref(a), w.ref(b)], dict(as_dataset=ds, return_timestamps=not ds and flag()), frames)
    ref = [None, w.ref(b)][int(rng.integers(2))]
    watch(rbm.lookup_twist, [w.ref(a), ref], dict(opts(), mode=["quaternion", "rotation_vector"][int(rng.integers(2))], as_dataset=ds, return_timestamps=not ds and flag()), frames)
    watch(rbm.lookup_linear_velocity, [w.ref(a), ref], dict(opts(), as_dataarray=ds, return_timestamps=not ds and flag()), frames)
    o = opts()
    watch(rbm.lookup_angular_velocity, [w.ref(a), ref], dict(o, as_dataarray=ds, return_timestamps=not ds and flag()), frames)
    watch(frames[a].lookup_twist, [frames[b]], dict(opts(), mode=["quaternion", "rotation_vector"][int(rng.integers(2))], return_timestamps=flag()), frames)
    watch(frames[a].lookup_linear_velocity, [frames[b]], opts(), frames)
    watch(frames[a].lookup_angular_velocity, [frames[b]], opts(), frames)
    with contextlib.redirect_stdout(io.StringIO()):
        watch(rbm.render_tree, [w.ref(a)], {}, frames)
    if w.registered:
        watch(str, [frames[a]], {}, frames)


@trial("C10", 150)
def quaternions(rng):
    n, k = int(rng.integers(3, 7)), int(rng.integers(1, 4))
    ax = int(rng.integers(3))
    q = np.moveaxis(smooth_quats(rng, n, unit=False)[:, None] * np.ones((1, k, 1)), -1, ax)
    other = [d for d in range(3) if d != ax]
    s = ax if rng.random() < 0.5 else ax - 3
    (x, bx), (y, by) = arr(rng, like=q), arr(rng, like=rng.normal(size=q.shape))
    bases = [bx, by]
    dt = ["float64"]
    watch(rbm.qinv, [x], {"qaxis": s}, bases=bases)
    watch(rbm.qmul, [x, y, x][:int(rng.integers(2, 4))], {"qaxis": s}, bases=bases)
    watch(rbm.qmean, [x], {"qaxis": s, "axis": [None, 0, (0, 1), 1][int(rng.integers(4))]}, bases=bases)
    ta, tb = arr(rng, like=np.arange(q.shape[other[0]]) * 1.0, dtype="float64")
    to, tob = arr(rng, like=np.sort(rng.uniform(0, q.shape[other[0]] - 1, 5)), dtype="float64")
    watch(rbm.qinterp, [x, ta, to], {"axis": other[0], "qaxis": s}, bases=bases + [tb, tob])
    qq = as_quat_array(np.ascontiguousarray(np.moveaxis(q, ax, -1)))
    watch(rbm.qinv, [qq], {"qaxis": None}), watch(rbm.qmul, [qq, qq], {"qaxis": None}), watch(rbm.qmean, [qq], {"qaxis": None, "axis": 0})
    watch(rbm.qinterp, [qq, np.arange(n) * 1.0, np.array([0.5, 1.0])], {"qaxis": None})
    v, vb = arr(rng, *[3 if d == ax else m for d, m in enumerate(q.shape)])
    watch(rbm.rotate_vectors, [x, v], {"axis": s, "qaxis": s, "one_to_one": bool(rng.random() < 0.7)}, bases=bases + [vb])
    watch(rbm.rotate_vectors, [qq, np.moveaxis(np.asarray(v), ax, -1)], {"qaxis": None})
    rpy, rb = arr(rng, *[3 if d == ax else m for d, m in enumerate(q.shape)])
    order = ["rpy", "ypr", ["r", "p", "y"], "pyr", ["y", "p", "r"]][int(rng.integers(5))]
    watch(rbm.from_euler_angles, [rpy], {"axis": s, "order": order, "return_quaternion": bool(rng.random() < 0.5)}, bases=[rb])
    r, p = arr(rng, 4), arr(rng, 4)
    watch(rbm.from_euler_angles, [], {"roll": r[0], "pitch": p[0], "yaw": [None, np.array([0.3, 0.1, 2.0, 1.0])][int(rng.integers(2))], "order": order}, bases=[r[1], p[1]])
    m = rng.normal(size=(3, 3))
    root = rf.ReferenceFrame("root")
    watch(lambda mat, **k: image(rf.ReferenceFrame.from_rotation_matrix(mat, root, **k).rotation), [np.linalg.qr(m)[0]], {"inverse": bool(rng.random() < 0.5)})


@trial("C10", 80)
def coordinates(rng):
    r = int(rng.integers(1, 4))
    ax = int(rng.integers(r))
    s = ax if rng.random() < 0.5 else ax - r
    for f, width in (("cartesian_to_polar", 2), ("polar_to_cartesian", 2), ("cartesian_to_spherical", 3), ("spherical_to_cartesian", 3)):
        x, b = arr(rng, *[width if d == ax else 2 + d for d in range(r)])
        watch(getattr(rbm, f), [x], {"axis": s}, bases=[b])
        one, two = f.split("_to_")
        from rigid_body_motion import transform_coordinates
        watch(transform_coordinates, [x, two, one], {"axis": s}, bases=[b])
        d = da(rng, x, [("axis", "k", "l")[(i - ax) % r] for i in range(r)])
        watch(transform_coordinates, [d, two, one], {"dim": "axis", "replace_dim": bool(rng.random() < 0.5)})


@trial("C10", 120)
def fits(rng):
    n = int(rng.integers(4, 9))
    ax = int(rng.integers(2))
    v = rng.normal(size=(n, 3))
    u = rot(quats(rng, unit=True), v) + rng.normal(size=3) * 0.1
    if ax == 0:
        v, u = v.T.copy(), u.T.copy()
    (x, bx), (y, by) = arr(rng, like=v), arr(rng, like=u)
    kw = {"axis": ax}
    if rng.random() < 0.5:
        dims = ["axis", "k"] if ax == 0 else ["k", "axis"]
        x, y = da(rng, x, dims), da(rng, y, dims)
        kw = {"dim": "axis"}
    for f in ("shortest_arc_rotation", "best_fit_rotation", "best_fit_transform"):
        watch(getattr(rbm, f), [x, y], kw, bases=[bx, by])
    init = None
    if rng.random() < 0.7:
        t, q = arr(rng, 3, dtype="float64"), arr(rng, like=quats(rng, unit=True), dtype="float64")
        if rng.random() < 0.3:
            t, q = (da(rng, t[0], ["axis"]), 0), (da(rng, q[0], ["qaxis"]), 0)
        init = (t[0], q[0]) if rng.random() < 0.5 else [t[0], q[0]]
        if not isinstance(t[1], int):
            bx, by = [bx, t[1]], [by, q[1]]
    watch(rbm.iterative_closest_point, [x, y], dict(kw, init_transform=init, max_iterations=int(rng.integers(1, 6))), bases=[bx, by])


@trial("C10", 120)
def velocities(rng):
    n = int(rng.integers(6, 20)) + int(rng.integers(2)) * 25
    dt = rng.random() < 0.4
    t = np.cumsum(rng.uniform(0.5, 1.5, n)) if not dt else EPOCH.astype("datetime64[ns]") + np.cumsum(rng.integers(1, 4, n)) * np.timedelta64(1, "s")
    ang = rng.random() < 0.5
    x = smooth_quats(rng, n) if ang else rng.normal(size=(n, 3))
    if rng.random() < 0.2:
        x[int(rng.integers(n))] = np.nan
    ta = int(rng.integers(2))
    if ta:
        x = x.T.copy()
    kw = dict(outlier_thresh=[None, 1.0][int(rng.integers(2))], cutoff=[None, None, 0.1][int(rng.integers(3))])
    if ang:
        kw["mode"] = ["quaternion", "rotation_vector"][int(rng.integers(2))]
    f = rbm.estimate_angular_velocity if ang else rbm.estimate_linear_velocity
    if rng.random() < 0.5:
        y, b = arr(rng, like=x, dtype="float64" if dt or rng.random() < 0.7 or np.isnan(x).any() else "float32")
        watch(f, [y], dict(kw, axis=1 - ta, time_axis=ta, timestamps=t if rng.random() < 0.7 else list(t)), bases=[b])
    else:
        y = da(rng, x, ["axis", "time"] if ta else ["time", "axis"], t, {"representation_frame": "a", "motion_type": "x"})
        watch(f, [y], dict(kw, dim="axis", timestamps="time"))


@trial("C10", 60)
def datasets(rng):
    n = int(rng.integers(4, 9))
    t, m = np.arange(n) * 0.5, int(rng.integers(2, 5))
    ds = xr.Dataset({"position": (("time", "cartesian_axis"), rng.normal(size=(n, 3))), "orientation": (("time", "quaternion_axis"), smooth_quats(rng, n))},
                    {"time": t, "cartesian_axis": list("xyz")}, {"units": "m"})
    to = np.sort(rng.uniform(0, t[-1], m))
    c = {"time": to if rng.random() < 0.5 else xr.DataArray(to, {"time": to}, "time", attrs={"a": 1})}
    q = ds.orientation
    q.attrs["note"] = [1]
    if rng.random() < 0.5:
        watch(q.rbm.qinterp, [c] if rng.random() < 0.5 else [], c if False else {}, bases=[q])
        watch(lambda x, y: x.rbm.qinterp(y), [q, c])
    else:
        watch(lambda x, **k: x.rbm.qinterp(**k), [q], c)
    watch(lambda x: x.rbm.qinv(), [q])
    root = rbm.ReferenceFrame("root")
    kw = dict(inverse=bool(rng.random() < 0.5), discrete=bool(rng.random() < 0.5))
    R = rf.ReferenceFrame
    made = [root]

    def build(f, *a, **k):
        fr = f(*a, **k)
        fr.parent = None
        return [image(fr.translation), image(fr.rotation), image(fr.timestamps)]

    watch(lambda *a, **k: build(R.from_dataset, *a, **k), [ds, "position", "orientation", "time", root], kw, made)
    watch(lambda *a, **k: build(R.from_translation_dataarray, *a, **k), [ds.position, "time", root], kw, made)
    watch(lambda *a, **k: build(R.from_rotation_dataarray, *a, **k), [ds.orientation, "time", root], kw, made)
    tr, r, ts = ds.position.values, ds.orientation.values, t.copy()
    watch(lambda *a, **k: build(R, "f", *a, **k), [], dict(parent=root, translation=tr, rotation=r, timestamps=ts, **kw), made)


@trial("C10", 40)
def drawings(rng):
    try:
        rbm.register_frame("w", update=True)
        rbm.register_frame("m", "w", translation=rng.normal(size=3), rotation=quats(rng), update=True)
        rbm.register_frame("f", "m", translation=rng.normal(size=3), rotation=quats(rng), update=True)
        ax = plt.figure(figsize=(2, 2)).add_subplot(111, projection="3d")
        v, q, b = rng.normal(size=(4, 3)), quats(rng, 4), rng.normal(size=(4, 3))
        v, q, b = [x[0] if rng.random() < 0.3 else x for x in (v, q, b)]
        if rng.random() < 0.3:
            v = xr.DataArray(v, dims=("time", "axis")[-v.ndim:], attrs={"a": [1]})
        b = [None, b, np.zeros(3)][int(rng.integers(3))]
        rbm_calls = [(pl.plot_reference_frame, ["f"], {"world_frame": [None, "w", "m"][int(rng.integers(3))]}), (pl.plot_points, [v], {}),
                     (pl.plot_vectors, [v], {"base": b}), (pl.plot_quaternions, [q], {"base": b})]
        for f, a, k in rbm_calls:
            watch(lambda *x, **y: (f(*x, **y), None)[1], a, dict(k, ax=ax))
    finally:
        plt.close("all")


@trial("C10", 40)
def ros(rng):
    made.clear()
    w = World(rng, size=int(rng.integers(2, 5)), kinds=("static", "cont"), register=False)
    frames = [f.rf for f in w.frames]
    t, q, v = rng.normal(size=3), quats(rng), rng.normal(size=3)
    none = lambda f: (lambda *a, **k: (f(*a, **k), None)[1])
    for f, a in ((M.make_transform_msg, [t, q, "a", "b"]), (M.make_pose_msg, [t, q, "a"]), (M.make_twist_msg, [t, v, "a"]), (M.make_vector_msg, [t, "a"]),
                 (M.make_point_msg, [t, "a"]), (M.make_quaternion_msg, [q, "a"])):
        watch(none(f), a)
    a, b = pair(rng, w)
    watch(none(Transformer.from_reference_frame), [frames[a]], {}, frames)
    k = 1 + int(rng.integers(len(frames) - 1))
    f = frames[k]

    def publish(f, **kw):
        x = ReferenceFrameTransformBroadcaster(f, **kw)
        x.publish(0 if w.frames[k].t is not None else None)
        x.publish()

    watch(publish, [f], dict(publish_pose=bool(rng.random() < 0.5), publish_twist=w.frames[k].t is not None and len(w.frames[k].t) > 2 and bool(rng.random() < 0.5)), frames)


@trial("C10", 60)
def registry(rng):
    """What register_frame was handed stays the caller's, whatever is called afterwards."""
    w = World(rng, register=True, size=int(rng.integers(2, 5)))
    frames = [f.rf for f in w.frames]
    n = int(rng.integers(3, 6))
    moving = rng.random() < 0.6
    tr, btr = arr(rng, *((n, 3) if moving else (3,)), dtype="float64")
    q, bq = arr(rng, like=smooth_quats(rng, n) if moving else quats(rng), dtype="float64")
    ts = None
    if moving:
        ts = stamps(np.arange(n) + 10, UNITS[int(rng.integers(4))] if w.datetimes else None)
        if not w.datetimes:
            ts = np.arange(n) + 10.0
    given = [tr, q, ts]
    before = image(given), image([btr, bq]), image(frames)
    rbm.register_frame("new", frames[0], tr, q, ts, inverse=bool(rng.random() < 0.5), discrete=bool(moving and rng.random() < 0.5))
    calls = [lambda: rbm.lookup_transform("new", frames[-1]), lambda: rbm.lookup_transform(frames[-1], "new"),
             lambda: rbm.lookup_twist("new", frames[-1]), lambda: rbm.transform_points(rng.normal(size=3), "new", frames[-1]),
             lambda: rbm.transform_linear_velocity(rng.normal(size=(n, 3)), "new", frames[-1], timestamps=ts)]
    for i in rng.permutation(len(calls)):
        try:
            calls[i]()
        except Exception:
            pass
        check(image(given) == before[0] and image([btr, bq]) == before[1], "what a frame was made from stays as it was")
    rbm.registry["new"].parent = None
    check(image(frames) == before[2], "the other frames stay as they were")

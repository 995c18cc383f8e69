import warnings
import xarray as xr
from c04 import array_times
from trees import *

FUNCS = {"points": "transform_points", "vectors": "transform_vectors", "quaternions": "transform_quaternions",
         "angular": "transform_angular_velocity", "linear": "transform_linear_velocity"}
WHATS = ["reference_frame", "moving_frame", "representation_frame"]


def coordinates(rng, dims, sizes, tdim, times):
    """Random coordinates of every kind for these dimensions."""
    co = {}
    others = [d for d in dims if d != tdim]
    if tdim is not None:
        co[tdim] = times
        n = len(times)
        pool = {
            "num": lambda: (tdim, rng.normal(size=n)),
            "count": lambda: (tdim, rng.integers(0, 9, size=n)),
            "phase": lambda: (tdim, np.array(list("abcdefghijklmnopqrstuvwxyz" * 9))[:n]),
            "flag": lambda: (tdim, rng.random(n) < 0.5),
            "lag": lambda: (tdim, rng.integers(0, 99, size=n).astype("timedelta64[ns]")),
            "clock": lambda: (tdim, EPOCH.astype("datetime64[ns]") + rng.integers(0, 10 ** 9, size=n)),
        }
        for k in pool:
            if rng.random() < 0.3:
                co[k] = pool[k]()
        if others and rng.random() < 0.3:
            d = others[int(rng.integers(len(others)))]
            dd = [(d, sizes[d]), (tdim, n)]
            if rng.random() < 0.5:
                dd = dd[::-1]
            co["grid"] = (tuple(x[0] for x in dd), rng.normal(size=tuple(x[1] for x in dd)))
    for d in others:
        if rng.random() < 0.6:
            co[d] = list("xyzwuvabcdef")[:sizes[d]] if rng.random() < 0.5 else rng.normal(size=sizes[d])
        if rng.random() < 0.3:
            co["extra_" + d] = (d, rng.normal(size=sizes[d]))
    if rng.random() < 0.3:
        co["scalar"] = float(rng.normal())
    return co


def nearest(x, v, t):
    return v[np.abs(x[None, :] - t[:, None]).argmin(1)]


def num(ts):
    return ts.astype("datetime64[ns]").astype(np.int64).astype(float) if ts.dtype.kind == "M" else np.asarray(ts, float)


@trial("C08", 300)
def transforms(rng):
    w = World(rng, register=True, size=int(rng.integers(2, 6)))
    a, b = pair(rng, w)
    fa, fb = w.frames[a].rf, w.frames[b].rf
    kind = list(FUNCS)[int(rng.integers(3 if rng.random() < 0.6 else 5))]
    what = "representation_frame" if kind == "vectors" else "reference_frame"
    kw = {}
    if kind in ("angular", "linear"):
        what = kw["what"] = WHATS[int(rng.integers(3))]
    t, unit = array_times(rng, w)
    times = stamps(t, unit)
    nd = int(rng.integers(1, 5))
    width = 4 if kind == "quaternions" else 3
    if nd == 1 or rng.random() < 0.2:
        dims = ["axis", "u", "v"][:min(nd, 3)]
        rng.shuffle(dims)
        sizes, tdim = {"axis": width, "u": int(rng.integers(1, 4)), "v": int(rng.integers(1, 4))}, None
        nd = len(dims)
    else:
        dims = ["axis", "time"] + ["u", "v"][:nd - 2]
        rng.shuffle(dims)
        sizes = {"axis": width, "time": len(t), "u": int(rng.integers(1, 4)), "v": int(rng.integers(1, 4))}
        tdim = "time"
    shape = tuple(sizes[d] for d in dims)
    data = rng.normal(size=shape)
    attrs = {"units": "m", "note": [1, 2]}
    source = True
    if rng.random() < 0.5:
        attrs[what] = fa.name
        source = rng.random() < 0.5
    elif rng.random() < 0.3:
        attrs[what] = "elsewhere"
    if rng.random() < 0.5:
        attrs["representation_frame"] = attrs.get("representation_frame", fa.name)
        if what == "representation_frame" and attrs[what] == fa.name:
            pass
    name = "thing" if rng.random() < 0.8 else None
    da = xr.DataArray(data.copy(), coordinates(rng, dims, sizes, tdim, times), dims, name, attrs)
    before = da.copy(deep=True)
    args = {}
    if rng.random() < 0.5:
        args["dim"] = "axis"
    elif dims[-1] != "axis" or rng.random() < 0.3:
        args["axis"] = dims.index("axis") - (nd if rng.random() < 0.5 else 0)
    if tdim:
        if rng.random() < 0.5:
            args["timestamps"] = "time"
        elif dims[0] != "time" or rng.random() < 0.3:
            args["time_axis"] = dims.index("time") - (nd if rng.random() < 0.5 else 0)
    elif nd > 1:
        args["timestamps"] = False
    if source:
        args["outof"] = w.ref(a)
    f = getattr(rbm, FUNCS[kind])
    try:
        want, to = f(data.copy(), w.ref(b), fa, axis=dims.index("axis"), time_axis=dims.index("time") if tdim else None,
                     timestamps=times if tdim else None, return_timestamps=True, **kw)
    except Exception as e:
        raises(type(e), lambda: f(da, w.ref(b), **args, **kw), "the DataArray is rejected like the array")
        return
    if tdim and len(to) < 1:
        return
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = f(da, w.ref(b), **args, **kw)
    ws = [x for x in ws if "transforming" in str(x.message)]
    contradicts = source and attrs.get(what, fa.name) != fa.name
    check(bool(ws) == contradicts, "a contradicting source frame is reported, and only that", "%s %s" % (attrs, fa.name))
    ndims = tuple(dims) if tdim or to is None else ("time",) + tuple(dims)
    check(r.dims == ndims and r.name == name, "dimensions and name", "%s %s" % (r.dims, r.name))
    close(r.values, want, "same numbers as the plain array", tol=1e-12)
    exp = dict(attrs)
    exp[what] = fb.name
    exp["representation_frame"] = fb.name
    check(r.attrs == exp, "attributes", "%s instead of %s" % (r.attrs, exp))
    if to is not None:
        check(np.array_equal(num(r.time.values), num(to)), "time coordinate")
    names = set(before.coords) | ({"time"} if to is not None else set())
    check(set(r.coords) == names, "the same coordinates", "%s instead of %s" % (sorted(r.coords), sorted(names)))
    for k in before.coords:
        c, o = r.coords[k], before.coords[k]
        if k == "time":
            continue
        check(c.dims == o.dims and (c.dtype.kind == o.dtype.kind or c.dtype.kind in "f"), "layout of the coordinates", k)
        v = o.values
        if tdim in o.dims and not np.array_equal(num(times), num(to)):
            ax = o.dims.index(tdim)
            v = np.moveaxis(v, ax, 0)
            x, tn = num(times), num(to)
            if v.dtype.kind in "fi":
                v = np.stack([np.interp(tn, x, col) for col in v.reshape(len(x), -1).T.astype(float)], -1).reshape((len(tn),) + v.shape[1:])
            else:
                v = nearest(x, v, tn)
            v = np.moveaxis(v, 0, ax)
        got = c.values
        if v.dtype.kind == "f":
            close(got, v, "coordinate " + k, tol=1e-9)
        else:
            check(np.array_equal(got, v), "coordinate " + k, "%s instead of %s" % (got, v))
    check(da.identical(before), "the input is not modified")


@trial("C08", 60)
def defaults(rng):
    """Without source frame and attribute: an error; contradicting arguments: errors."""
    w = World(rng, kinds=("static",), register=True, size=3)
    a, b = pair(rng, w)
    kind = list(FUNCS)[int(rng.integers(3))]
    what = "representation_frame" if kind == "vectors" else "reference_frame"
    f = getattr(rbm, FUNCS[kind])
    width = 4 if kind == "quaternions" else 3
    da = xr.DataArray(rng.normal(size=(5, width)), {"time": np.arange(5.0)}, ("time", "axis"))
    raises(ValueError, lambda: f(da, w.ref(b)), "no source frame")
    raises(ValueError, lambda: f(da.values, w.ref(b)), "no source frame")
    raises(ValueError, lambda: f(da, w.ref(b), w.ref(a), dim="axis", axis=-1), "dim and axis")
    raises(ValueError, lambda: f(da.values, w.ref(b), w.ref(a), dim="axis"), "dim without DataArray")
    r = f(da, w.ref(b), w.ref(a), timestamps=False)
    close(r.values, f(da.values, w.ref(b), w.ref(a)), "without timestamps", tol=1e-12)
    check(r.dims == da.dims and np.array_equal(r.time.values, da.time.values), "labels without timestamps")

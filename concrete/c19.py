import numpy as np
import xarray as xr
from base import *
from rigid_body_motion import estimate_linear_velocity, estimate_angular_velocity
from rigid_body_motion.core import _estimate_linear_velocity


def _stamps(rng, n):
    """(timestamps, seconds) with irregular sampling."""
    u = rng.random()
    if u < 0.4:
        t = np.cumsum(rng.uniform(0.2, 2.0, n))
        return t, t
    if u < 0.5:
        t = np.cumsum(rng.integers(1, 5, n))
        return t, t.astype(float)
    unit = ["s", "ms", "us", "ns"][int(rng.integers(4))]
    ns = {"s": 10 ** 9, "ms": 10 ** 6, "us": 10 ** 3, "ns": 1}[unit]
    k = np.cumsum(rng.integers(1, 5, n)) * max(1, 10 ** 8 // ns)
    t = (np.datetime64("2020-01-01", unit) + k.astype("timedelta64[%s]" % unit)).astype("datetime64[%s]" % unit)
    return t, k * (ns / 1e9)


def _tol(ts):
    """datetimes are converted to float nanoseconds since 1970 (about 256 ns of rounding)."""
    return 1e-4 if ts.dtype.kind == "M" else 1e-6


def _place(rng, a, da=True):
    """a (time, [other], components) -> array with the axes permuted; (array, time axis, spatial axis)."""
    perm = rng.permutation(a.ndim)
    x = np.transpose(a, perm)
    return np.ascontiguousarray(x), int(np.where(perm == 0)[0][0]), int(np.where(perm == a.ndim - 1)[0][0])


def _sign(rng, nd, *axes):
    return [ax - nd if rng.random() < 0.5 else ax for ax in axes]


def _call(rng, f, x, ts, ta, sa, comp, **kw):
    nd = x.ndim
    if rng.random() < 0.5 or ts.dtype.kind == "M" and ts.dtype != "datetime64[ns]":
        before = freeze(x, ts)
        t_, s_ = _sign(rng, nd, ta, sa)
        r = f(x, axis=s_, time_axis=t_, timestamps=ts, **kw)
        unchanged(before, (x, ts), "arguments")
        return r
    dims = ["k%d" % i for i in range(nd)]
    dims[ta], dims[sa] = "time", "%s_axis" % comp
    co = {"time": ts, dims[sa]: list("xyz") if comp == "cartesian" else list("wxyz"), "lab": ("time", np.arange(len(ts)).astype(str))}
    da = xr.DataArray(x, co, dims, "nm", {"u": 1})
    ref = da.copy(deep=True)
    r = f(da, **[{"dim": dims[sa]}, {"axis": sa}][int(rng.integers(2))], timestamps="time", **kw)
    check(da.identical(ref), "the argument is not modified")
    check(r.dims == tuple("cartesian_axis" if d.endswith("_axis") else d for d in dims), "dimension names", r.dims)
    check(list(r.cartesian_axis.values) == list("xyz") and r.name == "nm" and r.attrs == {"u": 1}, "labels")
    check(np.array_equal(r.time.values, da.time.values) and np.array_equal(r.lab.values, da.lab.values), "coordinates")
    return r.values


def _shape(rng, n):
    return (n,) if rng.random() < 0.5 else (n, int(rng.integers(1, 4)))


@trial("C19", 150)
def linear(rng):
    n = int(rng.integers(2, 9))
    ts, sec = _stamps(rng, n)
    lead = _shape(rng, n)
    v = rng.normal(size=lead[1:] + (3,))
    t = (sec - sec[0]).reshape((n,) + (1,) * (len(lead)))
    uniform = rng.normal(size=lead[1:] + (3,)) + t * v
    x, ta, sa = _place(rng, uniform)
    r = _call(rng, estimate_linear_velocity, x, ts, ta, sa, "cartesian")
    check(r.shape == x.shape, "layout")
    want = np.broadcast_to(v, uniform.shape)
    got = np.moveaxis(r, (ta, sa), (0, -1))
    close(got, want, "exact for uniform motion", tol=_tol(ts))
    noisy = rng.normal(size=lead + (3,))
    x, ta, sa = _place(rng, noisy)
    r = np.moveaxis(_call(rng, estimate_linear_velocity, x, ts, ta, sa, "cartesian"), (ta, sa), (0, -1))
    close(r, np.gradient(noisy, sec, axis=0), "difference quotient per second", tol=_tol(ts))
    y = x + 5.0
    r2 = np.moveaxis(_call(rng, estimate_linear_velocity, y, ts, ta, sa, "cartesian"), (ta, sa), (0, -1))
    close(r2, r, "constant offset", tol=_tol(ts))


@trial("C19", 150)
def angular(rng):
    n = int(rng.integers(6, 14))
    ts, sec = _stamps(rng, n)
    lead = _shape(rng, n)
    k = 1 if len(lead) == 1 else lead[1]
    cols = []
    for _ in range(k):
        cols.append(smooth_quats(rng, n))
    q = np.stack(cols, 1)
    if len(lead) == 1:
        q = q[:, 0]
    bad = np.zeros(n, bool)
    if rng.random() < 0.5:
        bad[rng.choice(n, int(rng.integers(1, max(2, n - 5))), replace=False)] = True
        if (~bad).sum() < 5:
            bad[:] = False
        for i in np.where(bad)[0]:
            q[i].flat[int(rng.integers(q[i].size))] = np.nan
    from quaternion import derivative
    good = ~bad
    want = np.full(q.shape[:-1] + (3,), np.nan)
    d = derivative(q[good], sec[good], axis=0)
    want[good] = 2 * qmul(qconj(q[good]), d)[..., 1:]
    x, ta, sa = _place(rng, q)
    r = np.moveaxis(_call(rng, estimate_angular_velocity, x, ts, ta, sa, "quaternion"), (ta, sa), (0, -1))
    close(r, want, "twice the vector part of the conjugate times the derivative", tol=_tol(ts))
    p = quats(rng, unit=True)
    x2, ta, sa = _place(rng, qmul(np.broadcast_to(p, q.shape), q))
    r2 = np.moveaxis(_call(rng, estimate_angular_velocity, x2, ts, ta, sa, "quaternion"), (ta, sa), (0, -1))
    close(r2, want, "constant rotation of the reference frame", tol=10 * _tol(ts))


@trial("C19", 60)
def constant_rate(rng):
    """A rotation at constant rate: the body-frame rate, in both modes."""
    n = int(rng.integers(20, 40))
    sec = np.cumsum(rng.uniform(0.04, 0.05, n))
    w = rng.normal(size=3)
    w /= np.linalg.norm(w)
    rate = rng.uniform(0.2, 0.9)
    a = (sec - sec.mean()) * rate / 2
    q = np.concatenate([np.cos(a)[:, None], np.sin(a)[:, None] * w], 1)
    p = quats(rng, unit=True)
    lead = qmul(np.broadcast_to(p, q.shape), q)
    got = estimate_angular_velocity(lead, timestamps=sec)
    close(got, np.broadcast_to(rate * w, got.shape), "constant rate", tol=1e-3)
    rv = estimate_angular_velocity(q, timestamps=sec, mode="rotation_vector")
    close(rv, np.broadcast_to(rate * w, rv.shape), "constant rate (rotation vectors)", tol=1e-6)
    x, ta, sa = _place(rng, np.stack([q, q], 1))
    r = np.moveaxis(estimate_angular_velocity(x, timestamps=sec, axis=sa, time_axis=ta, mode="rotation_vector"), (ta, sa), (0, -1))
    close(r, np.broadcast_to(rate * w, r.shape), "constant rate (rotation vectors, layout)", tol=1e-6)


@trial("C19", 10)
def rejects(rng):
    n = 8
    q = smooth_quats(rng, n)
    ts = np.arange(n) * 1.0
    raises(ValueError, lambda: estimate_angular_velocity(q, timestamps=ts, mode="x"), "unknown mode")
    raises(ValueError, lambda: estimate_angular_velocity(q, timestamps=ts, axis=0), "time and space on one axis")


@trial("C19", 120)
def options(rng):
    """Outlier suppression and low-pass filtering along the time axis, in both layouts."""
    from quaternion import derivative, as_rotation_vector, as_quat_array
    from scipy.interpolate import interp1d
    from scipy.signal import butter, filtfilt
    n = int(rng.integers(25, 50))
    ts, sec = _stamps(rng, n)
    sec = sec - sec[0]
    ang = rng.random() < 0.5
    mode = ["quaternion", "rotation_vector"][int(rng.integers(2))]
    thresh = [None, 1.0, 0.3][int(rng.integers(3))]
    cutoff = [None, 0.25][int(rng.integers(2))]
    if ang:
        x = smooth_quats(rng, n)
        for i in rng.choice(np.arange(3, n - 3), 2):
            x[i] = quats(rng, unit=True)
        pos = as_rotation_vector(as_quat_array(x))
        want = 2 * qmul(qconj(x), derivative(x, sec, axis=0))[..., 1:] if mode == "quaternion" else np.gradient(pos, sec, axis=0)
    else:
        x = pos = np.cumsum(0.02 * rng.normal(size=(n, 3)), 0)
        for i in rng.choice(np.arange(3, n - 3), 2):
            x[i] += rng.normal(size=3)
        want = np.gradient(x, sec, axis=0)
    if thresh is not None:
        d = [float(np.linalg.norm(pos[i] - 2 * pos[i + 1] + pos[i + 2])) for i in range(n - 2)]
        keep = [(d[i] if i < n - 2 else 0) + (d[i - 1] if 1 <= i <= n - 2 else 0) <= thresh for i in range(n)]
        if sum(keep) < 2:
            return
        want = interp1d(sec[keep], want[keep], axis=0, bounds_error=False)(sec)
    if cutoff is not None:
        want = filtfilt(*butter(7, cutoff), want, axis=0)
    y, ta, sa = _place(rng, x)
    kw = dict(outlier_thresh=thresh, cutoff=cutoff)
    if ang:
        kw["mode"] = mode
    r = _call(rng, estimate_angular_velocity if ang else estimate_linear_velocity, y, ts, ta, sa, "quaternion" if ang else "cartesian", **kw)
    close(np.moveaxis(r, (ta, sa), (0, -1)), want, "outliers and filtering along the time axis", tol=100 * _tol(ts), details="%s %s" % (kw, y.shape))

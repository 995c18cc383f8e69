import warnings

import numpy as np
import xarray as xr
from quaternion import as_quat_array, as_float_array, squad
from base import *
from rigid_body_motion import utils as U
import rigid_body_motion  # noqa: registers the accessor


def _series(rng, shape, n, unit=None):
    """shape + (n, 4): independent smooth series."""
    out = np.empty(shape + (n, 4))
    for i in np.ndindex(*shape):
        out[i] = smooth_quats(rng, n, unit=True if unit is None else unit)
    return out


def _want(q, t_in, t_out):
    out = np.empty(q.shape[:-2] + (len(t_out), 4))
    for i in np.ndindex(*q.shape[:-2]):
        out[i] = as_float_array(squad(as_quat_array(q[i]), t_in, t_out))
    return out


def _times(rng, n, m):
    t = np.cumsum(rng.uniform(0.1, 2.0, n)) + rng.normal() * 5
    o = np.sort(rng.uniform(t[0], t[-1], m))
    return t, o


@trial("C13", 150)
def any_axis(rng):
    r = int(rng.integers(2, 5))
    lead = tuple(int(x) for x in rng.integers(1, 4, r - 2))
    n, m = int(rng.integers(3, 8)), int(rng.integers(1, 9))
    q = _series(rng, lead, n)
    t, o = _times(rng, n, m)
    want = _want(q, t, o)
    ax, qa = [int(x) for x in rng.choice(r, 2, replace=False)]
    src = (r - 2, r - 1)
    qin = np.moveaxis(q, src, (ax, qa))
    exp = np.moveaxis(want, src, (ax, qa))
    a1 = ax if rng.random() < 0.5 else ax - r
    a2 = qa if rng.random() < 0.5 else qa - r
    close(U.qinterp(qin, t, o, a1, a2), exp, "interpolation along axis", details="axis %d qaxis %d shape %s" % (a1, a2, qin.shape))
    close(U.qinterp(qin, t, t, a1, a2), qin, "samples are reproduced", tol=1e-6)
    a3 = int(rng.integers(0, r - 1))
    qq = np.moveaxis(q, -2, a3)
    got = U.qinterp(as_quat_array(np.ascontiguousarray(qq)), t, o, a3 if rng.random() < 0.5 else a3 - (r - 1))
    check(got.dtype == np.quaternion, "quaternion dtype is kept")
    close(as_float_array(got), np.moveaxis(want, -2, a3), "interpolation of quaternion arrays")


@trial("C13", 60)
def datetimes(rng):
    n, m = int(rng.integers(3, 7)), int(rng.integers(1, 7))
    q = _series(rng, (), n)
    t = np.cumsum(rng.integers(1, 5, n)) * 60
    o = np.sort(rng.integers(t[0], t[-1] + 1, m))
    want = _want(q, t.astype(float), o.astype(float))
    u1, u2 = rng.choice(["s", "ms", "us", "ns"], 2)
    conv = lambda x, u: (np.datetime64("2020-01-01", "s") + x.astype("timedelta64[s]")).astype("datetime64[%s]" % u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        close(U.qinterp(q, conv(t, u1), conv(o, u2)), want, "datetime timestamps", details="units %s %s" % (u1, u2), tol=1e-6)


@trial("C13", 60)
def accessor_qinterp(rng):
    r = int(rng.integers(2, 4))
    lead = tuple(int(x) for x in rng.integers(1, 4, r - 2))
    n, m = int(rng.integers(3, 8)), int(rng.integers(2, 9))
    q = _series(rng, lead, n)
    t, o = _times(rng, n, m)
    dims = ["k%d" % i for i in range(r - 2)] + ["time", "quaternion_axis"]
    p = rng.permutation(r)
    coords = {"time": t, "quaternion_axis": ["w", "x", "y", "z"]}
    if r == 3:
        coords["k0"] = np.arange(lead[0]) * 10
    num, lab, other = rng.normal(size=n), np.array(["a%d" % i for i in range(n)]), np.arange(4.0)
    coords["num"] = ("time", num)
    coords["lab"] = ("time", lab)
    count = rng.integers(0, 9, size=n)
    coords["count"] = ("time", count)
    coords["lag"] = ("time", np.arange(len(lab)).astype("timedelta64[ns]"))
    coords["other"] = ("quaternion_axis", other)
    da = xr.DataArray(q, coords, dims, "nm", {"units": "u", "x": 1}).transpose(*[dims[i] for i in p])
    ref = da.copy(deep=True)
    got = da.rbm.qinterp(time=o) if rng.random() < 0.5 else da.rbm.qinterp({"time": o})
    want = np.transpose(_want(q, t, o), p)
    close(got.values, want, "accessor qinterp values", details=str(da.dims))
    check(got.dims == da.dims and got.name == "nm" and got.attrs == da.attrs, "accessor qinterp keeps dims, name and attrs", repr(got))
    close(got.coords["time"].values, o, "requested coordinate")
    close(got.coords["num"].values, np.interp(o, t, num), "numeric coordinates are interpolated")
    close(got.coords["count"].values, np.interp(o, t, count), "numeric coordinates are interpolated")
    near = [set(lab[np.abs(t - x) <= np.abs(t - x).min() + 1e-12]) for x in o]
    check(all(a in b for a, b in zip(got.coords["lab"].values, near)), "other coordinates: nearest")
    close(got.coords["other"].values, other, "independent coordinates are kept")
    check(set(got.coords) == set(da.coords), "coordinates are kept")
    if r == 3:
        close(got.coords["k0"].values, ref.coords["k0"].values, "independent coordinates are kept")
    check(da.identical(ref), "accessor qinterp does not modify the array")


@trial("C13", 40)
def accessor_qinv(rng):
    r = int(rng.integers(1, 4))
    q = quats(rng, *[int(x) for x in rng.integers(1, 4, r - 1)], unit=False)
    dims = ["k%d" % i for i in range(r - 1)] + ["qd"]
    p = rng.permutation(r)
    da = xr.DataArray(q, {"qd": ["w", "x", "y", "z"]}, dims, "nm", {"a": 2}).transpose(*[dims[i] for i in p])
    ref = da.copy(deep=True)
    got = da.rbm.qinv("qd")
    close(got.values, np.transpose(qinv(q), p), "accessor qinv values")
    check(got.dims == da.dims and got.name == "nm" and got.attrs == {"a": 2}, "accessor qinv keeps dims, name and attrs")
    check(da.identical(ref), "accessor qinv does not modify the array")
    raises(ValueError, lambda: da.rbm.qinv("nope"), "unknown dimension")
    raises(ValueError, lambda: da.rbm.qinterp(nope=[1.0], qdim="qd"), "unknown dimension")

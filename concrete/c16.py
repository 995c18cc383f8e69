import numpy as np
import xarray as xr
from base import *
from rigid_body_motion import shortest_arc_rotation as sar


def _pairs(rng, lead):
    a, b = rng.normal(size=lead + (3,)), rng.normal(size=lead + (3,))
    for i in np.ndindex(*lead):
        u = rng.random()
        if u < 0.4:
            a[i] = 0
            k = rng.choice(3, 1 if u < 0.25 else 2, replace=False)
            a[i][k] = rng.normal(size=len(k))
        u = rng.random()
        if u < 0.15:
            b[i] = a[i]
        elif u < 0.45:
            b[i] = -a[i]
        a[i] *= 10 ** rng.uniform(-3, 3)
        b[i] *= 10 ** rng.uniform(-3, 3)
    return a, b


def verify(q, a, b, what):
    ua, ub = a / np.linalg.norm(a, axis=-1, keepdims=True), b / np.linalg.norm(b, axis=-1, keepdims=True)
    close(np.linalg.norm(q, axis=-1), np.ones(q.shape[:-1]), what + ": unit quaternion")
    check(np.all(q[..., 0] >= -1e-9), what + ": non-negative scalar part", q)
    close(rot(q, ua), ub, what + ": rotates the first direction onto the second", tol=1e-6, details="%s %s" % (a, b))
    close(np.sum(q[..., 1:] * ua, -1), np.zeros(q.shape[:-1]), what + ": axis perpendicular", tol=1e-6)
    close(np.sum(q[..., 1:] * ub, -1), np.zeros(q.shape[:-1]), what + ": axis perpendicular", tol=1e-6)


@trial("C16", 300)
def arrays(rng):
    r = int(rng.integers(1, 5))
    lead = tuple(int(x) for x in rng.integers(1, 5, r - 1))
    a, b = _pairs(rng, lead)
    ax = int(rng.integers(-r, r))
    x, y = np.moveaxis(a, -1, ax), np.moveaxis(b, -1, ax)
    q = sar(x, y, axis=ax)
    check(q.shape == x.shape[:ax % r] + (4,) + x.shape[ax % r + 1:], "layout of the result", q.shape)
    verify(np.moveaxis(q, ax, -1), a, b, "arrays")


@trial("C16", 60)
def dataarrays(rng):
    r = int(rng.integers(1, 4))
    lead = tuple(int(x) for x in rng.integers(1, 5, r - 1))
    a, b = _pairs(rng, lead)
    ax = int(rng.integers(0, r))
    dims = ["k%d" % i for i in range(r - 1)]
    co = {d: np.arange(n) * 1.5 for d, n in zip(dims, lead)}
    if dims:
        co["l"] = (dims[0], np.array(["s%d" % i for i in range(lead[0])]))
    dims = dims[:ax] + ["cartesian_axis"] + dims[ax:]
    co["cartesian_axis"] = ["x", "y", "z"]
    x, y = np.moveaxis(a, -1, ax), np.moveaxis(b, -1, ax)
    da, db = xr.DataArray(x, co, dims, "nm", {"u": 1}), xr.DataArray(y, co, dims)
    ref = da.copy(deep=True)
    got = sar(da, db if rng.random() < 0.5 else y, **([{"dim": "cartesian_axis"}, {"axis": ax}, {"axis": ax - r}][int(rng.integers(3))]))
    check(got.dims == tuple("quaternion_axis" if d == "cartesian_axis" else d for d in dims), "dimension names", got.dims)
    check(list(got.coords["quaternion_axis"].values) == ["w", "x", "y", "z"], "quaternion labels")
    check(set(got.coords) == set(co) - {"cartesian_axis"} | {"quaternion_axis"}, "coordinates")
    check(got.name == "nm" and got.attrs == {"u": 1}, "name and attributes")
    verify(np.moveaxis(got.values, ax, -1), a, b, "DataArrays")
    check(da.identical(ref), "the argument is not modified")

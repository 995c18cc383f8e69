import numpy as np
import xarray as xr
from base import *
from rigid_body_motion import best_fit_rotation, best_fit_transform


def _points(rng, n):
    kind = int(rng.integers(5))
    a = rng.normal(size=(n, 3)) * 10 ** rng.uniform(-2, 2)
    if kind == 1:
        a[:, int(rng.integers(3))] = 0  # coplanar
    q = quats(rng, unit=True)
    R = rotmat(q)
    b = a @ R.T
    exact = kind in (0, 1)
    if kind == 2:
        b = b + rng.normal(size=b.shape) * 0.3 * np.abs(a).max()
    if kind == 3:
        b = b * np.array([1, 1, -1])  # mirrored
    if kind == 4:
        b = rng.normal(size=b.shape)
    return a, b, exact


def _layout(rng, a, b):
    n = len(a)
    order = rng.permutation(n)
    a, b = a[order], b[order]
    r = int(rng.integers(2, 5))
    shape = (n,)
    if r > 2:
        divs = [d for d in range(1, n + 1) if n % d == 0]
        d = divs[int(rng.integers(len(divs)))]
        shape = (d, n // d) if r == 3 else (d, 1, n // d)
    a, b = a.reshape(shape + (3,)), b.reshape(shape + (3,))
    ax = int(rng.integers(-a.ndim, a.ndim))
    return np.moveaxis(a, -1, ax), np.moveaxis(b, -1, ax), ax


def _cost(R, t, a, b):
    return np.sum((b - a @ R.T - t) ** 2)


def _optimal(rng, q, t, a, b, exact, what):
    close(np.linalg.norm(q), 1.0, what + ": unit quaternion")
    R = rotmat(q)
    scale = np.sum(b ** 2) + np.sum(a ** 2)
    c0 = _cost(R, t, a, b)
    if exact:
        check(c0 <= 1e-9 * scale, what + ": exact correspondences are recovered", c0)
    for k in range(60):
        if k < 30:
            Q = rotmat(quats(rng, unit=True))
        else:
            d = np.concatenate([[1.0], rng.normal(size=3) * 10 ** rng.uniform(-4, 0)])
            Q = R @ rotmat(d)
        tt = np.zeros(3) if np.ndim(t) == 0 else b.mean(0) - Q @ a.mean(0)
        check(_cost(Q, tt, a, b) >= c0 - 1e-9 * scale, what + ": no other rotation is better", (c0, _cost(Q, tt, a, b)))
    if np.ndim(t):
        close(R @ a.mean(0) + t, b.mean(0), what + ": centroids coincide")


@trial("C17", 300)
def rotation(rng):
    a, b, exact = _points(rng, int(rng.integers(1, 9)))
    x, y, ax = _layout(rng, a, b)
    before = freeze(x, y)
    _optimal(rng, best_fit_rotation(x, y, axis=ax), 0.0, a, b, exact, "rotation")
    unchanged(before, (x, y), "rotation")


@trial("C17", 300)
def transform(rng):
    a, b, exact = _points(rng, int(rng.integers(1, 9)))
    b = b + rng.normal(size=3) * 3
    a = a + rng.normal(size=3)
    if not exact or rng.random() < 0.5:
        exact = False
    else:
        b = a @ rotmat(quats(rng, unit=True)).T + rng.normal(size=3)
    x, y, ax = _layout(rng, a, b)
    before = freeze(x, y)
    t, q = best_fit_transform(x, y, axis=ax)
    _optimal(rng, q, t, a, b, exact, "transform")
    unchanged(before, (x, y), "transform")


@trial("C17", 80)
def dataarrays(rng):
    a, b, exact = _points(rng, int(rng.integers(2, 9)))
    x, y, ax = _layout(rng, a, b)
    dims = ["k%d" % i for i in range(x.ndim)]
    dims[ax] = "cartesian_axis"
    da, db = xr.DataArray(x, {"cartesian_axis": ["x", "y", "z"]}, dims), xr.DataArray(y, {"cartesian_axis": ["x", "y", "z"]}, dims)
    kw = [{"dim": "cartesian_axis"}, {"axis": ax}][int(rng.integers(2))]
    t, q = best_fit_transform(da, db, **kw)
    r = best_fit_rotation(da, db, **kw)
    for g in (q, r):
        check(g.dims == ("quaternion_axis",) and list(g.quaternion_axis.values) == list("wxyz"), "rotation labels")
    check(t.dims == ("cartesian_axis",) and list(t.cartesian_axis.values) == list("xyz"), "translation labels")
    _optimal(rng, q.values, t.values, a, b, False, "transform")
    _optimal(rng, r.values, 0.0, a, b, exact, "rotation")


@trial("C17", 20)
def rejects(rng):
    n = int(rng.integers(2, 6))
    a = rng.normal(size=(n, 3))
    for f in (best_fit_rotation, best_fit_transform):
        raises(ValueError, lambda: f(a, rng.normal(size=(n + 1, 3))), "different numbers of vectors")
        raises(ValueError, lambda: f(a[0], a[0]), "single vectors")
        raises(ValueError, lambda: f(rng.normal(size=(n, 4)), rng.normal(size=(n, 4))), "vectors of another length")

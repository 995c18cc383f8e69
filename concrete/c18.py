import numpy as np
import xarray as xr
from base import *
from rigid_body_motion import iterative_closest_point as icp
from rigid_body_motion import best_fit_transform


def _arrange(rng, a, ax_rank=None):
    """Arrange rows as an array with the vectors along some axis."""
    n = len(a)
    shape = (n,)
    r = ax_rank or int(rng.integers(2, 4))
    if r == 3:
        divs = [d for d in range(1, n + 1) if n % d == 0]
        d = divs[int(rng.integers(len(divs)))]
        shape = (d, n // d)
    return a.reshape(shape + (3,))


def oracle(a, b, init, max_iterations, tol):
    x = a.copy()
    if init is not None:
        x = rot(np.asarray(init[1]), x) + np.asarray(init[0])
    prev = 0.0
    steps = 0
    margin = np.inf
    for _ in range(max_iterations):
        d2 = np.sum((x[:, None] - b[None]) ** 2, -1)
        s = np.sort(np.sqrt(d2), -1)
        if s.shape[1] > 1:
            margin = min(margin, np.min(s[:, 1] - s[:, 0]))
        j = np.argmin(d2, -1)
        err = np.mean(np.sqrt(d2[np.arange(len(a)), j]))
        ma, mb = x.mean(0), b[j].mean(0)
        H = (x - ma).T @ (b[j] - mb)
        U, S, Vt = np.linalg.svd(H)
        D = np.diag([1, 1, np.sign(np.linalg.det(Vt.T @ U.T))])
        margin = min(margin, S[1] + S[2] * D[2, 2])
        R = Vt.T @ D @ U.T
        x = (x - ma) @ R.T + mb
        steps += 1
        margin = min(margin, abs(abs(prev - err) - tol))
        if abs(prev - err) < tol:
            break
        prev = err
    return x, margin


@trial("C18", 500)
def iterations(rng):
    n, m = int(rng.integers(3, 9)), int(rng.integers(3, 12))
    r = int(rng.integers(2, 4))
    if rng.random() < 0.5:
        m = n
    b = rng.normal(size=(m, 3))
    a = rng.normal(size=(n, 3))
    rough = rng.random() < 0.4
    if rough:
        # the mean distance goes down slowly, and sometimes up
        a = b[rng.integers(m, size=n)] + rng.normal(size=(n, 3)) * 10 ** rng.uniform(-1.5, 0.5)
    elif rng.random() < 0.7 and m >= n:
        small = np.concatenate([[1.0], rng.normal(size=3) * 0.1])
        a = b[rng.permutation(m)[:n]] @ rotmat(small).T + rng.normal(size=3) * 0.1 + rng.normal(size=(n, 3)) * 10 ** rng.uniform(-9, -1)
    init = None
    if rng.random() < 0.5:
        init = (rng.normal(size=3) * 0.3, np.concatenate([[1.0], rng.normal(size=3) * 0.2]))
    tol = float(10 ** (rng.uniform(-3, 0.5) if rough else rng.uniform(-12, 0)))
    limit = int(rng.integers(0, 12))
    want, margin = oracle(a, b, init, limit, tol)
    x, y = _arrange(rng, a, r), _arrange(rng, b, r)
    ax = int(rng.integers(-r, r))
    x, y = np.moveaxis(x, -1, ax), np.moveaxis(y, -1, ax)
    before = freeze(x, y)
    arg = init
    da = rng.random() < 0.25
    kw = {"axis": ax}
    if da:
        dims = ["k%d" % i for i in range(r)]
        dims[ax] = "cartesian_axis"
        xx, yy = xr.DataArray(x, {"cartesian_axis": list("xyz")}, dims), xr.DataArray(y, {"cartesian_axis": list("xyz")}, dims)
        kw = [{"axis": ax}, {"dim": "cartesian_axis"}][int(rng.integers(2))]
        if init is not None:
            arg = (xr.DataArray(init[0], {"cartesian_axis": list("xyz")}, "cartesian_axis"), xr.DataArray(init[1], {"quaternion_axis": list("wxyz")}, "quaternion_axis"))
    else:
        xx, yy = x, y
    t, q = icp(xx, yy, init_transform=arg, max_iterations=limit, tolerance=tol, **kw)
    if da:
        check(t.dims == ("cartesian_axis",) and q.dims == ("quaternion_axis",), "labels of the result")
        t, q = t.values, q.values
    close(np.linalg.norm(q), 1.0, "the result is a proper rotation")
    unchanged(before, (x, y), "arguments")
    if margin > 1e-6 or limit == 0:
        close(rot(q, a) + t, want, "the result takes the first points to where the iterations moved them", tol=1e-6)


@trial("C18", 40)
def coincide(rng):
    n = int(rng.integers(3, 9))
    a = rng.normal(size=(n, 3))
    q = quats(rng, unit=True)
    t = rng.normal(size=3)
    b = rot(q, a) + t
    extra = np.concatenate([b, rng.normal(size=(int(rng.integers(0, 4)), 3)) + 20])
    extra = extra[rng.permutation(len(extra))]
    tt, qq = icp(a, extra, init_transform=(t, q), max_iterations=int(rng.integers(0, 6)))
    close(rot(qq, a) + tt, b, "coinciding points stay there", tol=1e-6)


@trial("C18", 10)
def stops(rng):
    """Number of iterations, observed at the nearest neighbour search."""
    import rigid_body_motion.estimators as est
    from scipy.spatial import cKDTree
    a, b = rng.normal(size=(6, 3)), rng.normal(size=(9, 3))
    limit = int(rng.integers(0, 9))
    count = []

    class Tree:
        def __init__(self, data, *x, **k):
            self.t = cKDTree(data, *x, **k)

        def query(self, *x, **k):
            count.append(1)
            return self.t.query(*x, **k)

    if not hasattr(est, "cKDTree"):
        return
    est.cKDTree = Tree
    try:
        icp(a, b, max_iterations=limit, tolerance=0.0)
    finally:
        est.cKDTree = cKDTree
    check(len(count) <= limit, "at most max_iterations iterations", len(count))

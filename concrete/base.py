"""Trial registry, input generators and pure-python oracles."""
import gc
import zlib

import numpy as np

TRIALS = {}


class Violation(Exception):
    def __init__(self, what, details=""):
        super().__init__(what)
        self.details = details if isinstance(details, (str, dict, list)) else str(details)


class Trial:
    def __init__(self, prop, fn, count):
        self.prop, self.fn, self.count, self.name = prop, fn, count, fn.__name__
        self.key = zlib.crc32(fn.__name__.encode())


def trial(prop, count=40):
    def deco(fn):
        TRIALS.setdefault(prop, []).append(Trial(prop, fn, count))
        return fn
    return deco


def fresh_state():
    """Clear the frame registry between trials."""
    import rigid_body_motion.reference_frames as rf
    rf._registry.clear()


def check(cond, what, details=""):
    if not cond:
        raise Violation(what, details)


def close(got, want, what, tol=1e-7, details=""):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(what + ": shape %s instead of %s" % (got.shape, want.shape), details)
    if got.dtype.kind in "mM" or want.dtype.kind in "mM":
        ok = bool(np.all(got == want))
    else:
        g, w = got.astype(float), want.astype(float)
        scale = 1.0 + (np.nanmax(np.abs(w)) if w.size and not np.all(np.isnan(w)) else 0.0)
        nan = np.isnan(g) == np.isnan(w)
        diff = np.where(np.isnan(w), 0.0, np.abs(g - w))
        ok = bool(np.all(nan)) and bool(np.all(diff <= tol * scale))
    if not ok:
        raise Violation(what, "%s got %s expected %s" % (details, _short(got), _short(want)))


def _short(a):
    return np.array2string(np.asarray(a), threshold=40, precision=6)


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(what + ": raised %s: %s" % (type(e).__name__, e))
    raise Violation(what + ": no exception", repr(r)[:500])


# ------------------------------------------------------- quaternion oracle
def qmul(p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    w, x, y, z = np.moveaxis(p, -1, 0)
    a, b, c, d = np.moveaxis(q, -1, 0)
    return np.stack([w * a - x * b - y * c - z * d, w * b + x * a + y * d - z * c,
                     w * c - x * d + y * a + z * b, w * d + x * c - y * b + z * a], -1)


def qconj(q):
    return np.asarray(q, float) * np.array([1.0, -1, -1, -1])


def qinv(q):
    q = np.asarray(q, float)
    return qconj(q) / np.sum(q * q, -1, keepdims=True)


def rot(q, v):
    """q v q^-1 (last axis)."""
    q, v = np.asarray(q, float), np.asarray(v, float)
    z = np.zeros(v.shape[:-1] + (1,))
    return qmul(qmul(q, np.concatenate([z, v], -1)), qinv(q))[..., 1:]


def rotmat(q):
    return np.stack([rot(q, e) for e in np.eye(3)], -1)


# ------------------------------------------------------------- generators
def quats(rng, *shape, unit=None):
    q = rng.normal(size=shape + (4,))
    n = np.linalg.norm(q, axis=-1, keepdims=True)
    q = q / n
    if unit is False or (unit is None and rng.random() < 0.4):
        q = q * rng.uniform(0.3, 3.0, size=n.shape)
    return q


def smooth_quats(rng, n, unit=True):
    """A sequence without sign flips and moderate steps."""
    q = np.empty((n, 4))
    cur = quats(rng, unit=True)
    for i in range(n):
        q[i] = cur
        a = rng.normal(size=3) * 0.3
        d = np.concatenate([[1.0], a])
        cur = qmul(cur, d / np.linalg.norm(d))
    if not unit:
        q = q * rng.uniform(0.5, 2.0)
    return q


def freeze(*arrays):
    return [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in arrays]


def unchanged(before, after, what):
    for b, a in zip(before, after):
        if isinstance(b, np.ndarray):
            check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), what + ": input modified")

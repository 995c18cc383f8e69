"""Random frame trees and an independent oracle for lookups along their paths."""
import numpy as np
from quaternion import as_quat_array, as_float_array, squad
import rigid_body_motion as rbm
from base import *

UNITS = ["s", "ms", "us", "ns"]
EPOCH = np.datetime64("2021-03-04T05:06:07", "s")


class F:
    """Specification of one frame: kind, times (float seconds), numbers."""

    def __init__(self, kind, parent, t=None, tr=None, q=None, unit=None):
        self.kind, self.parent, self.t, self.tr, self.q, self.unit = kind, parent, t, tr, q, unit
        self.rf = None


def stamps(t, unit):
    """Program timestamps for times in whole seconds (or floats without a unit)."""
    if unit is None:
        return np.array(t, float)
    return (EPOCH + np.asarray(t).astype("timedelta64[s]")).astype("datetime64[%s]" % unit)


def random_frame(rng, parent, kinds, unit, span=(0, 40), n=None):
    kind = kinds[int(rng.integers(len(kinds)))]
    if kind == "static":
        return F(kind, parent, None, rng.normal(size=3) * 2, quats(rng))
    if kind == "cont":
        n = n or int(rng.integers(3, 9))
        a, b = sorted(rng.choice(np.arange(0, 8), 2, replace=False))
        t = np.sort(rng.choice(np.arange(span[0] + a + 1, span[1] - (b - a)), n - 2, replace=False))
        t = np.concatenate([[span[0] + a], t, [span[1] - (b - a) + 1]])
        t = np.unique(t)
    else:
        n = n or int(rng.integers(1, 7))
        t = np.sort(rng.choice(np.arange(span[0] - 5, span[1] + 5), n, replace=False))
    if unit is None:
        t = t * 0.25
    m = len(t)
    q = smooth_quats(rng, m, unit=True) if kind == "cont" else quats(rng, m)
    if kind == "cont" and rng.random() < 0.4:
        q = q * rng.uniform(0.5, 2.0)
    return F(kind, parent, t, rng.normal(size=(m, 3)) * 2, q, unit)


class World:
    """A tree of frames; frame 0 is the root."""

    def __init__(self, rng, size=None, kinds=("static", "cont", "disc"), unit="?", register=None, mixed_units=True):
        self.rng = rng
        base = (UNITS[int(rng.integers(4))] if rng.random() < 0.6 else None) if unit == "?" else unit
        self.datetimes = base is not None
        self.frames = [F("root", None)]
        size = size or int(rng.integers(2, 9))
        for i in range(1, size):
            u = base if base is None or not mixed_units else UNITS[int(rng.integers(4))]
            # deep trees are as likely as bushy ones
            p = i - 1 if rng.random() < 0.45 else int(rng.integers(0, i))
            self.frames.append(random_frame(rng, p, kinds, u))
        self.registered = bool(rng.random() < 0.5) if register is None else register
        self.build()

    def build(self):
        tag = "f%d_" % int(self.rng.integers(10 ** 6))
        for i, f in enumerate(self.frames):
            name = tag + str(i)
            kw = {}
            if f.kind != "root":
                kw = dict(parent=self.frames[f.parent].rf, translation=f.tr.copy(), rotation=f.q.copy())
                if f.t is not None:
                    kw["timestamps"] = stamps(f.t, f.unit)
                    kw["discrete"] = f.kind == "disc"
            if self.registered:
                if "parent" in kw and self.rng.random() < 0.5:
                    kw["parent"] = kw["parent"].name
                rbm.register_frame(name, **kw)
                f.rf = rbm.registry[name]
            else:
                f.rf = rbm.ReferenceFrame(name, **kw)

    def ref(self, i):
        """The frame as an argument: object or registered name."""
        rf = self.frames[i].rf
        return rf.name if self.registered and self.rng.random() < 0.5 else rf

    def chain(self, i):
        out = [i]
        while self.frames[out[-1]].parent is not None:
            out.append(self.frames[out[-1]].parent)
        return out

    def path(self, a, b):
        """[(frame, inverse)] from a to b."""
        ca, cb = self.chain(a), self.chain(b)
        common = next(x for x in ca if x in cb)
        return [(x, False) for x in ca[:ca.index(common)]] + [(x, True) for x in reversed(cb[:cb.index(common)])]

    # ------------------------------------------------------------ oracle
    def out_times(self, a, b, array=None):
        """(times in seconds or None, stamps unit) of a lookup."""
        fs = [self.frames[i] for i, _ in self.path(a, b)]
        cont = [f for f in fs if f.kind == "cont"]
        disc = [f for f in fs if f.kind == "disc"]
        ranged = ([array] if array is not None else []) + [f.t for f in cont]
        if ranged:
            lo, hi = max(t[0] for t in ranged), min(t[-1] for t in ranged)
            t = ranged[0]
            return t[(t >= lo) & (t <= hi)]
        if disc:
            return np.unique(np.concatenate([f.t for f in disc]))
        return None

    def contribution(self, i, t):
        f = self.frames[i]
        if t is None:
            return f.tr, f.q
        if f.kind == "static":
            return np.broadcast_to(f.tr, (len(t), 3)), np.broadcast_to(f.q, (len(t), 4))
        if f.kind == "disc":
            k = np.maximum(np.searchsorted(f.t, t, side="right") - 1, 0)
            return f.tr[k], f.q[k]
        tr = np.stack([np.interp(t, f.t, f.tr[:, c]) for c in range(3)], -1)
        x = f.t.astype(float)
        q = as_float_array(squad(as_quat_array(f.q), x, np.asarray(t, float))) if len(t) else np.zeros((0, 4))
        return tr, q

    def transform(self, a, b, t):
        """Composition along the path at times t (None: static)."""
        shape = () if t is None else (len(t),)
        tr, q = np.zeros(shape + (3,)), np.zeros(shape + (4,))
        q[..., 0] = 1.0
        for i, inverse in self.path(a, b):
            ft, fq = self.contribution(i, t)
            if inverse:
                tr, q = rot(qinv(fq), tr - ft), qmul(qinv(fq), q)
            else:
                tr, q = rot(fq, tr) + ft, qmul(fq, q)
        return tr, q

    def describe(self, a, b):
        return "path %s" % [(i, "inv" if inv else "", self.frames[i].kind, self.frames[i].unit) for i, inv in self.path(a, b)]


def same_times(got, t, datetimes, what):
    """Returned timestamps denote exactly the times t."""
    if t is None:
        return check(got is None, what + ": static result", repr(got))
    check(got is not None and got.shape == (len(t),), what + ": number of timestamps", "%s instead of %s" % (None if got is None else got.shape, len(t)))
    if datetimes:
        check(got.dtype.kind == "M", what + ": datetime timestamps", str(got.dtype))
        want = stamps(t, "ns")
        check(bool(np.all(got.astype("datetime64[ns]") == want)), what + ": values", "%s instead of %s" % (got, want))
    else:
        close(got, t, what + ": values", tol=1e-12)


def pair(rng, w):
    n = len(w.frames)
    return int(rng.integers(n)), int(rng.integers(n))

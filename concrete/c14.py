import itertools

import numpy as np
from quaternion import as_float_array
from base import *
from rigid_body_motion import utils as U

ORDERS = ["".join(p) for p in itertools.permutations("rpy")]
NAMES = {"r": "roll", "p": "pitch", "y": "yaw"}


def single(c, a):
    a = np.asarray(a, float)
    q = np.zeros(a.shape + (4,))
    q[..., 0], q[..., "rpy".index(c) + 1] = np.cos(a / 2), np.sin(a / 2)
    return q


def chain(order, ang):
    q = None
    for c in order:
        if c in ang:
            q = single(c, ang[c]) if q is None else qmul(q, single(c, ang[c]))
    return q


@trial("C14", 150)
def separate(rng):
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 4))))
    given = [c for c in "rpy" if rng.random() < 0.7] or ["p"]
    ang = {c: rng.normal(size=sh) * rng.choice([1.0, 20.0]) for c in given}
    if not sh and rng.random() < 0.5:
        ang = {c: float(a) for c, a in ang.items()}
    kw = {NAMES[c]: a for c, a in ang.items()}
    order = "rpy"
    if rng.random() < 0.8:
        order = kw["order"] = str(rng.choice(ORDERS))
    want = chain(order, ang)
    close(U.from_euler_angles(**kw), want, "chained half-angle rotations", details="%s %s" % (order, given))
    q = U.from_euler_angles(return_quaternion=True, **kw)
    close(as_float_array(q), want, "quaternion dtype")
    close(np.linalg.norm(U.from_euler_angles(**kw), axis=-1), np.ones(sh), "unit quaternions")


@trial("C14", 150)
def one_array(rng):
    r = int(rng.integers(1, 5))
    a = rng.normal(size=tuple(int(x) for x in rng.integers(1, 4, r - 1)) + (3,)) * 3
    ax = int(rng.integers(-r, r))
    order = str(rng.choice(ORDERS))
    want = chain(order, {c: a[..., i] for i, c in enumerate("rpy")})
    got = U.from_euler_angles(np.swapaxes(a, ax, -1), axis=ax, order=order)
    close(got, np.swapaxes(want, ax, -1), "angles in one array", details="axis %d rank %d order %s" % (ax, r, order))


@trial("C14", 20)
def rejected(rng):
    a, b = rng.normal(size=3), rng.normal(size=4)
    for o in ["rrp", "rp", "xyz", "rpyr", ""]:
        raises(ValueError, lambda: U.from_euler_angles(roll=a, order=o), "order %s" % o)
    for x, y in itertools.permutations(NAMES.values(), 2):
        raises(ValueError, lambda: U.from_euler_angles(**{x: a, y: b}), "inconsistent shapes %s %s" % (x, y))
        raises(ValueError, lambda: U.from_euler_angles(**{x: a, y: a[None]}), "inconsistent shapes %s %s" % (x, y))
        raises(ValueError, lambda: U.from_euler_angles(**{x: a, y: 1.0}), "inconsistent shapes %s %s" % (x, y))
        raises(ValueError, lambda: U.from_euler_angles(a, **{x: 1.0}), "angles twice")
    raises(ValueError, lambda: U.from_euler_angles(), "nothing given")

import numpy as np
from quaternion import as_quat_array, as_float_array
from base import *
from rigid_body_motion import utils as U


def _shape(rng, r):
    return tuple(int(x) for x in rng.integers(1, 4, size=r))


@trial("C11", 80)
def qmul_product(rng):
    r = int(rng.integers(0, 4))
    sh = _shape(rng, r)
    n = int(rng.integers(2, 5))
    qs = [quats(rng, *sh) for _ in range(n)]
    want = qs[0]
    for q in qs[1:]:
        want = qmul(want, q)
    ax = int(rng.integers(-(r + 1), r + 1))
    got = U.qmul(*[np.swapaxes(q, -1, ax) for q in qs], qaxis=ax)
    close(got, np.swapaxes(want, -1, ax), "qmul is the Hamilton product", details="rank %d axis %d" % (r + 1, ax))
    got = U.qmul(*[as_quat_array(q) for q in qs])
    check(got.dtype == np.quaternion, "qmul keeps the quaternion dtype")
    close(as_float_array(got), want, "qmul of quaternion arrays")


@trial("C11", 80)
def qinv_inverse(rng):
    r = int(rng.integers(0, 4))
    q = quats(rng, *_shape(rng, r), unit=False)
    ax = int(rng.integers(-(r + 1), r + 1))
    got = U.qinv(np.swapaxes(q, -1, ax), qaxis=ax)
    close(got, np.swapaxes(qinv(q), -1, ax), "qinv is the inverse", details="rank %d axis %d" % (r + 1, ax))
    close(as_float_array(U.qinv(as_quat_array(q))), qinv(q), "qinv of quaternion arrays")


@trial("C11", 200)
def rotate(rng):
    r = int(rng.integers(1, 5))
    lead = _shape(rng, r - 1)
    qs, vs = list(lead), list(lead)
    for i in range(r - 1):
        u = rng.random()
        if u < 0.2:
            qs[i] = 1
        elif u < 0.4:
            vs[i] = 1
    q, v = quats(rng, *qs, unit=False), rng.normal(size=tuple(vs) + (3,)) * 10
    ax = int(rng.integers(-r, r))
    want = np.moveaxis(rot(q, v), -1, ax)
    vin = np.moveaxis(v, -1, ax)
    arg = as_quat_array(q) if rng.random() < 0.5 else q
    close(U.rotate_vectors(arg, vin, axis=ax), want, "rotate_vectors is q v q^-1", details="q %s v %s axis %d" % (q.shape, vin.shape, ax))
    if r > 1:
        qa = int(rng.integers(-r, r))
        close(U.rotate_vectors(np.moveaxis(q, -1, qa), vin, axis=ax, qaxis=qa), want, "rotate_vectors with qaxis %d" % qa)


@trial("C11", 80)
def rotate_all(rng):
    qs, vs = _shape(rng, int(rng.integers(0, 3))), _shape(rng, int(rng.integers(0, 3)))
    q, v = quats(rng, *qs, unit=False), rng.normal(size=vs + (3,))
    ax = int(rng.integers(-len(vs) - 1, len(vs) + 1))
    want = np.empty(qs + vs + (3,))
    for i in np.ndindex(*qs):
        for j in np.ndindex(*vs):
            want[i + j] = rot(q[i], v[j])
    pos = len(qs) + ax % (len(vs) + 1)
    want = np.moveaxis(want, -1, pos)
    vin = np.moveaxis(v, -1, ax)
    close(U.rotate_vectors(as_quat_array(q), vin, axis=ax, one_to_one=False), want, "all combinations")
    if not qs:
        close(U.rotate_vectors(as_quat_array(q), vin, axis=ax), want, "single quaternion")


@trial("C11", 20)
def rejects(rng):
    q, v = quats(rng, 3), rng.normal(size=(4, 3))
    raises(ValueError, lambda: U.rotate_vectors(q, v), "mismatched lengths")
    raises(ValueError, lambda: U.rotate_vectors(q, rng.normal(size=(3, 2, 3))), "mismatched ranks")
    raises(ValueError, lambda: U.rotate_vectors(q, rng.normal(size=(3, 4))), "wrong vector length")
    raises(ValueError, lambda: U.qmul(q), "one argument")
    raises(ValueError, lambda: U.qmul(q, as_quat_array(q)), "mixed dtypes")

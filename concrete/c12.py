import numpy as np
from quaternion import as_quat_array, as_float_array
from base import *
from rigid_body_motion import utils as U


def best(A):
    return np.linalg.eigvalsh(A)[..., -1]


@trial("C12", 150)
def optimal(rng):
    r = int(rng.integers(1, 4))
    sh = tuple(int(x) for x in rng.integers(1, 6, size=r))
    q = quats(rng, *sh, unit=True)
    if rng.random() < 0.3:
        q = np.broadcast_to(q[(0,) * r], q.shape) + 0.05 * rng.normal(size=q.shape)
    if rng.random() < 0.3:
        q = q * rng.choice([-1, 1], size=sh + (1,))
    mode = rng.integers(0, 3)
    if mode == 0:
        axis, axes = None, tuple(range(r))
    elif mode == 1:
        axis = int(rng.integers(-r, r))
        axes = (axis % r,)
    else:
        k = int(rng.integers(1, r + 1))
        axes = tuple(int(a) for a in rng.permutation(r)[:k])
        axis = tuple(a - r if rng.random() < 0.5 else a for a in axes)
    keep = [a for a in range(r) if a not in axes]
    for arg, isq in ((as_quat_array(q.copy()), True), (q.copy(), False)):
        m = U.qmean(arg, axis=axis)
        if isq:
            check(m.dtype == np.quaternion, "qmean keeps the quaternion dtype")
            m = as_float_array(m)
        check(m.shape == tuple(sh[a] for a in keep) + (4,), "qmean keeps the axes that are not averaged", "%s %s %s" % (sh, axis, m.shape))
        close(np.sum(m * m, -1), np.ones(m.shape[:-1]), "unit mean")
        if not isq:
            qa = int(rng.integers(-r - 1, r + 1))
            pos = qa % (r + 1)
            g = U.qmean(np.swapaxes(q, qa, -1), axis=axis, qaxis=qa)
            at = lambda a: r if a == pos else a
            order = sorted(keep + [pos - 0.5 if pos < r else r + 0.5], key=lambda a: pos if a in (pos - 0.5, r + 0.5) else at(a))
            exp = np.transpose(m, [keep.index(a) if a in keep else len(keep) for a in order])
            check(g.shape == exp.shape, "the layout of the input is kept", "%s qaxis %d axis %s: %s" % (sh, qa, axis, g.shape))
            close(np.abs(g), np.abs(exp), "the same mean for every quaternion axis", tol=1e-12)
        A = np.mean(q[..., :, None] * q[..., None, :], axis=axes)
        v = np.einsum("...i,...ij,...j->...", m, A, m)
        close(v, best(A) if keep else np.asarray(best(A)), "qmean maximizes the mean squared scalar product", details="shape %s axis %s" % (sh, axis))


@trial("C12", 60)
def copies(rng):
    n = int(rng.integers(1, 9))
    q = quats(rng, unit=True)
    s = rng.choice([-1, 1], size=(n, 1)) if rng.random() < 0.7 else 1
    Q = np.tile(q, (n, 1)) * s
    m = as_float_array(U.qmean(as_quat_array(Q)))
    close(m * np.sign(m @ q), q, "mean of copies")
    Q = quats(rng, n, unit=True)
    a = U.qmean(Q, axis=0)
    p = rng.permutation(n)
    b = U.qmean(Q[p] * rng.choice([-1, 1], size=(n, 1)), axis=0)
    A = np.mean(Q[:, :, None] * Q[:, None, :], 0)
    w = np.linalg.eigvalsh(A)
    if w[-1] - w[-2] > 1e-3:
        close(a * np.sign(a @ b), b, "mean does not depend on order and signs", tol=1e-6)
    close(U.qmean(Q.T.copy(), qaxis=0) * np.sign(U.qmean(Q.T.copy(), qaxis=0) @ a), a, "qaxis") if w[-1] - w[-2] > 1e-3 else None

import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d import proj3d

from trees import *

from rigid_body_motion import plotting as pl


def new_axes(rng, prepared):
    ax = plt.figure(figsize=(2, 2)).add_subplot(111, projection="3d")
    if prepared in ("fixed", "inverted"):
        for s in (ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d):
            lo = rng.normal() * 4
            lim = [lo, lo + 0.1 + 5 * rng.random()]
            s(lim if prepared == "fixed" else lim[::-1])
    elif prepared == "data":
        a = rng.normal(size=(3, 4))
        ax.plot(*a)
    elif prepared == "plotted":
        pl.plot_points(rng.normal(size=(3, 3)) + rng.normal(size=3) * 5, ax=ax)
    return ax


def lims(ax):
    return [sorted(g()) for g in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)]


def view(ax, pts, before, keeps, what):
    now = lims(ax)
    r = [b - a for a, b in now]
    close(r[1:], [r[0]] * 2, what + ": equal ranges")
    tol = 1e-6 * (1 + np.abs(now).max())
    pts = np.asarray(pts, float).reshape(-1, 3)
    pts = pts[np.isfinite(pts).all(1)]
    for k in range(3):
        lo, hi = now[k][0] - tol, now[k][1] + tol
        check(((pts[:, k] >= lo) & (pts[:, k] <= hi)).all(), what + ": everything that was drawn is in view", "%s not in %s" % (pts[:, k].tolist(), now[k]))
        check(not keeps or (lo <= before[k][0] and before[k][1] <= hi), what + ": everything in view stays in view", "%s -> %s" % (before, now))


PREP = ["none", "new", "fixed", "inverted", "data", "plotted"]
KEEPS = ("fixed", "inverted", "plotted")



def close_all(f):
    def g(rng):
        try:
            f(rng)
        finally:
            plt.close("all")
    g.__name__ = f.__name__
    return g


@trial("C24", 60)
@close_all
def frames(rng):
    w, b = rbm.register_frame("w", update=True), None
    rbm.register_frame("m", "w", translation=rng.normal(size=3) * 3, rotation=quats(rng), update=True)
    rbm.register_frame("f", "m", translation=rng.normal(size=3) * 3, rotation=quats(rng), update=True)
    rbm.register_frame("o", "w", translation=rng.normal(size=3) * 3, rotation=quats(rng), inverse=True, update=True)
    prep = PREP[int(rng.integers(len(PREP)))]
    ax = None if prep == "none" else new_axes(rng, prep)
    world = [None, "w", "o", "f"][int(rng.integers(4))]
    L = float([1.0, 0.3, 2.5][int(rng.integers(3))])
    kw = {} if L == 1.0 else {"arrow_len": L}
    if world:
        kw["world_frame"] = world if rng.random() < 0.5 else rbm.registry[world]
    before = lims(ax) if ax else None
    arrows = pl.plot_reference_frame("f" if rng.random() < 0.5 else rbm.registry["f"], ax=ax, **kw)
    ax = ax or plt.gcf().axes[0]
    pts = np.vstack([np.zeros(3), np.eye(3) * L])
    if world and world != "f":
        pts = rbm.transform_points(pts, outof="f", into=world)
    check(len(arrows) == 3 and all(a in ax.get_children() for a in arrows), "one arrow per axis is drawn and returned")
    ax.figure.canvas.draw()
    for k, a in enumerate(arrows):
        ends = np.array([pts[0], pts[k + 1]])
        xs, ys, _ = proj3d.proj_transform(*ends.T, ax.M)
        close(a._posA_posB, np.stack([xs, ys], 1), "the %s arrow goes from the origin to the tip of its axis" % "xyz"[k])
    view(ax, pts, before, before is not None and (prep in KEEPS), "plot_reference_frame")
    n = int(rng.integers(1, 4))
    rbm.register_frame("v", "w", translation=rng.normal(size=(n, 3)), rotation=quats(rng, n), timestamps=np.arange(n), update=True)
    k = len(ax.get_children())
    raises(NotImplementedError, lambda: pl.plot_reference_frame("v", ax=ax), "a moving frame")
    check(len(ax.get_children()) == k, "nothing is drawn for a moving frame")


@trial("C24", 120)
@close_all
def arrays(rng):
    prep = PREP[int(rng.integers(len(PREP)))]
    ax = None if prep == "none" else new_axes(rng, prep)
    before = lims(ax) if ax else None
    n = int(rng.integers(1, 5))
    shape = (3,) if rng.random() < 0.3 else (n, 3)
    kind = ["points", "vectors", "quaternions"][int(rng.integers(3))]
    integer = rng.random() < 0.3
    far = rng.normal(size=3) * 10

    def val(shape):
        a = (rng.normal(size=shape) * 3 + far)
        a = a.round().astype(int) if integer else a
        return a.tolist() if rng.random() < 0.3 else a

    if kind == "points":
        a = val(shape)
        kw = [{}, {"fmt": "o"}, {"color": "k", "fmt": "-"}][int(rng.integers(3))]
        if not integer and len(shape) == 2 and n > 1 and rng.random() < 0.2:
            a = np.array(a)
            a[0, int(rng.integers(3))] = np.nan
        lines = pl.plot_points(a, ax=ax, **kw)
        ax = ax or plt.gcf().axes[0]
        check(len(lines) == 1 and lines[0] in ax.get_lines(), "the line is drawn and returned")
        close(np.array(lines[0].get_data_3d(), float).T, np.reshape(a, (-1, 3)), "points")
        pts = a
    else:
        base = None if rng.random() < 0.4 else val(shape)
        if kind == "vectors":
            a = val(shape)
            L = [1.0, 0.5, 3.0][int(rng.integers(3))]
            kw = {} if L == 1.0 else {"length": L}
            r = [pl.plot_vectors(a, base, ax=ax, **kw)]
            vs = [np.reshape(a, (-1, 3))]
        else:
            q = quats(rng, *shape[:-1])
            r = pl.plot_quaternions(q, base, ax=ax)
            L = None
            vs = [rot(q, np.broadcast_to(e, shape)).reshape(-1, 3) for e in np.eye(3)]
        ax = ax or plt.gcf().axes[0]
        check(len(r) == len(vs) and all(c in ax.collections for c in r), "the arrows are drawn and returned")
        pts = []
        b = np.zeros_like(vs[0]) if base is None else np.reshape(base, (-1, 3)).astype(float)
        for k, (c, v) in enumerate(zip(r, vs)):
            m = (np.linalg.norm(v, axis=1) > 0)
            s = np.array(list(c._segments3d[: m.sum()]))[:, ::-1]   # matplotlib lists the tip first
            if L is None:
                got = s[:, 1] - s[:, 0]
                close(got / np.linalg.norm(got, axis=1)[:, None], v / np.linalg.norm(v, axis=1)[:, None], "direction of the %s axes" % "xyz"[k])
                close(s[:, 0], b, "origin of the %s axes" % "xyz"[k])
            else:
                close(s, np.stack([b, b + L * v], 1)[m], "the vectors from their base points")
            pts.append(s.reshape(-1, 3))
        pts = np.vstack(pts)
    view(ax, pts, before, prep in KEEPS, "plot_" + kind)


@trial("C24", 40)
@close_all
def rejected(rng):
    ax = new_axes(rng, "new")
    n = int(rng.integers(2, 5))
    k = len(ax.get_children())
    for f in (pl.plot_points, pl.plot_vectors):
        for s in ((2,), (4,), (n, 2), (n, 4), (n, n, 3), (1, 1, 3)):
            raises(ValueError, lambda: f(np.ones(s), ax=ax), "%s of shape %s" % (f.__name__, s))
    for s in ((n + 1, 3), (1, 3), (n, 4), (1, n, 3), (3,)):
        raises(ValueError, lambda: pl.plot_vectors(np.ones((n, 3)), np.ones(s), ax=ax), "base points of shape %s" % (s,))
    check(len(ax.get_children()) == k, "nothing is drawn")

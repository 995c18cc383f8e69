import warnings

import xarray as xr

from trees import *


def args(rng, given, kind, n=None):
    n = n or int(rng.integers(3, 8))
    shape = () if kind == "static" else (n,)
    tr = rng.normal(size=shape + (3,)) * 2
    q = quats(rng, *shape) if kind != "cont" else smooth_quats(rng, n, unit=bool(rng.random() < 0.5))
    t = np.sort(rng.choice(np.arange(0, 40), n, replace=False)) if shape else None
    unit = UNITS[int(rng.integers(4))] if rng.random() < 0.5 else None
    return tr if given in ("both", "tr") else None, q if given in ("both", "q") else None, t, unit, shape


GIVEN = ["both", "tr", "q", "none"]


def full(tr, q, shape):
    if tr is None:
        tr = np.zeros(shape + (3,))
    if q is None:
        q = np.zeros(shape + (4,))
        q[..., 0] = 1
    return tr, q


def same(f1, f2, root, what):
    for a, b in ((f1.lookup_transform(root), f2.lookup_transform(root)), (root.lookup_transform(f1), root.lookup_transform(f2))):
        close(a[0], b[0], what + ": translation", tol=1e-7)
        close(a[1], b[1], what + ": rotation", tol=1e-7)
        check((a[2] is None) == (b[2] is None) and (a[2] is None or np.array_equal(a[2], b[2])), what + ": timestamps")


@trial("C03", 250)
def frames(rng):
    given, kind = GIVEN[int(rng.integers(4))], ["static", "cont", "disc"][int(rng.integers(3))]
    tr, q, t, unit, shape = args(rng, given, kind)
    root = rbm.ReferenceFrame("root")
    kw = {}
    if tr is not None:
        kw["translation"] = tr if rng.random() < 0.7 else tr.tolist()
    if q is not None:
        kw["rotation"] = q if rng.random() < 0.7 else tuple(map(float, q)) if q.ndim == 1 else q.tolist()
    if t is not None:
        kw.update(timestamps=stamps(t, unit), discrete=kind == "disc")
    ftr, fq = full(tr, q, shape)
    opt = {k: v for k, v in kw.items() if k not in ("translation", "rotation")}
    inv = dict(opt, translation=-rot(qinv(fq), ftr), rotation=qinv(fq))
    f = rbm.ReferenceFrame("f", root, **kw)
    same(f, rbm.ReferenceFrame("f2", root, translation=ftr, rotation=fq, **opt), root, "missing translation or rotation")
    i = rbm.ReferenceFrame("i", root, inverse=True, **kw)
    same(i, rbm.ReferenceFrame("i2", root, **inv), root, "inverse")
    rbm.register_frame("reg", parent=root, inverse=True, **kw)
    same(rbm.registry["reg"], i, root, "register_frame")
    check(rbm.registry["reg"].discrete == (kind == "disc"), "discrete")
    a, b = f.lookup_transform(root), i.lookup_transform(root)
    if kind == "static":
        close(rot(b[1], a[0]) + b[0], np.zeros(3), "composition with the inverse", tol=1e-7)
        close(qmul(b[1], a[1]), [1.0, 0, 0, 0], "composition with the inverse", tol=1e-7)


@trial("C03", 150)
def constructors(rng):
    kind = ["cont", "disc"][int(rng.integers(2))]
    tr, q, t, unit, shape = args(rng, "both", kind)
    ts = stamps(t, unit)
    root = rbm.ReferenceFrame("root")
    opt = dict(inverse=bool(rng.random() < 0.5), discrete=kind == "disc")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = xr.Dataset({"p": (("t", "c"), tr), "o": (("t", "q"), q)}, {"t": ts})
    ts = ds.t.values
    which = int(rng.integers(3))
    name = None if rng.random() < 0.5 else "f"
    cls = rbm.ReferenceFrame
    if which == 0:
        f = cls.from_dataset(ds, "p", "o", "t", root, name=name, **opt)
        g = cls("g", root, tr, q, ts, **opt)
    elif which == 1:
        f = cls.from_translation_dataarray(ds.p, "t", root, name=name, **opt)
        g = cls("g", root, translation=tr, timestamps=ts, **opt)
    else:
        f = cls.from_rotation_dataarray(ds.o, "t", root, name=name, **opt)
        g = cls("g", root, rotation=q, timestamps=ts, **opt)
    check(f.name == name and f.discrete == opt["discrete"], "name and options")
    same(f, g, root, "constructor")


@trial("C03", 60)
def matrices(rng):
    q = quats(rng, unit=True)
    M = np.stack([rot(q, e) for e in np.eye(3)], 1)
    root = rbm.ReferenceFrame("root")
    inverse = bool(rng.random() < 0.5)
    f = rbm.ReferenceFrame.from_rotation_matrix(M, root, name="m", inverse=inverse)
    v = rng.normal(size=3)
    close(f.transform_vectors(v, root), (M.T if inverse else M) @ v, "rotation matrix", tol=1e-7)
    close(f.translation, np.zeros(3), "no translation")

import numpy as np
import xarray as xr
from base import *
import rigid_body_motion as rbm
from rigid_body_motion import coordinate_systems as cs


def _vecs(rng, lead, n):
    v = rng.normal(size=lead + (n,)) * 3
    u = rng.random(lead)
    v[u < 0.15] = 0.0
    k = u > 0.6
    for i in np.argwhere(k):
        keep = rng.integers(0, n)
        x = v[tuple(i)][keep] * rng.choice([-1, 1])
        v[tuple(i)] = 0.0
        v[tuple(i) + (keep,)] = x
    return v


@trial("C15", 150)
def spherical(rng):
    r = int(rng.integers(1, 5))
    lead = tuple(int(x) for x in rng.integers(1, 5, r - 1))
    v = _vecs(rng, lead, 3)
    ax = int(rng.integers(-r, r))
    vin = np.moveaxis(v, -1, ax)
    s = np.moveaxis(cs.cartesian_to_spherical(vin, axis=ax), ax, -1)
    rad = np.linalg.norm(v, axis=-1)
    close(s[..., 0], rad, "radius")
    check(np.all((s[..., 1] >= 0) & (s[..., 1] <= np.pi)), "polar angle range", s)
    check(np.all((s[..., 2] >= -np.pi) & (s[..., 2] <= np.pi)), "azimuth range", s)
    nz = rad > 0
    close(s[..., 1][nz], np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2])[nz], "polar angle", tol=1e-6)
    off = np.hypot(v[..., 0], v[..., 1]) > 0
    close(s[..., 2][off], np.arctan2(v[..., 1], v[..., 0])[off], "azimuth")
    close(cs.spherical_to_cartesian(np.moveaxis(s, -1, ax), axis=ax), vin, "back to cartesian", tol=1e-6)
    th, ph, R = rng.uniform(0.01, np.pi - 0.01, lead), rng.uniform(-np.pi, np.pi, lead), rng.uniform(0.1, 5, lead)
    p = np.stack([R, th, ph], -1)
    c = cs.spherical_to_cartesian(np.moveaxis(p, -1, ax), axis=ax)
    close(np.moveaxis(c, ax, -1), np.stack([R * np.sin(th) * np.cos(ph), R * np.sin(th) * np.sin(ph), R * np.cos(th)], -1), "spherical to cartesian")
    close(cs.cartesian_to_spherical(c, axis=ax), np.moveaxis(p, -1, ax), "round trip from spherical", tol=1e-6)


@trial("C15", 100)
def polar(rng):
    r = int(rng.integers(1, 5))
    lead = tuple(int(x) for x in rng.integers(1, 5, r - 1))
    v = _vecs(rng, lead, 2)
    ax = int(rng.integers(-r, r))
    vin = np.moveaxis(v, -1, ax)
    s = cs.cartesian_to_polar(vin, axis=ax)
    close(np.moveaxis(s, ax, -1)[..., 0], np.linalg.norm(v, axis=-1), "radius")
    nz = np.linalg.norm(v, axis=-1) > 0
    close(np.moveaxis(s, ax, -1)[..., 1][nz], np.arctan2(v[..., 1], v[..., 0])[nz], "azimuth")
    close(cs.polar_to_cartesian(s, axis=ax), vin, "back to cartesian")
    p = np.stack([rng.uniform(0.1, 5, lead), rng.uniform(-np.pi, np.pi, lead)], -1)
    c = cs.polar_to_cartesian(np.moveaxis(p, -1, ax), axis=ax)
    close(cs.cartesian_to_polar(c, axis=ax), np.moveaxis(p, -1, ax), "round trip from polar")


LABELS = {("cartesian", 2): ["x", "y"], ("cartesian", 3): ["x", "y", "z"], ("polar", 2): ["r", "phi"], ("spherical", 3): ["r", "theta", "phi"]}


@trial("C15", 80)
def named(rng):
    a, b, n = [("cartesian", "polar", 2), ("cartesian", "spherical", 3)][int(rng.integers(2))]
    src, dst = (a, b) if rng.random() < 0.5 else (b, a)
    r = int(rng.integers(1, 4))
    lead = tuple(int(x) for x in rng.integers(1, 4, r - 1))
    v = np.abs(_vecs(rng, lead, n)) % 1.5 + 0.1
    f = getattr(cs, "%s_to_%s" % (src, dst))
    ax = int(rng.integers(-r, r))
    vin = np.moveaxis(v, -1, ax)
    want = f(vin, axis=ax)
    before = freeze(vin)
    close(rbm.transform_coordinates(vin, outof=src, into=dst, axis=ax), want, "named conversion of arrays")
    unchanged(before, [vin], "transform_coordinates")
    if rng.random() < 0.3 or r == 1:
        close(rbm.transform_coordinates(v, outof=src, into=dst), f(v, axis=-1), "default axis")
    dims = ["k%d" % i for i in range(r)]
    sd = "%s_axis" % src
    dims[ax] = sd
    coords = {sd: LABELS[src, n]}
    other = [d for d in dims if d != sd]
    for d in other:
        coords[d] = np.arange(vin.shape[dims.index(d)]) * 2.0
    if other:
        coords["extra"] = (other[0], np.arange(vin.shape[dims.index(other[0])]) + 7)
    coords["gone"] = (sd, np.arange(n))
    attrs = {"units": "m", "coordinate_system": src}
    with_attr = rng.random() < 0.6
    if not with_attr:
        del attrs["coordinate_system"]
    da = xr.DataArray(vin, coords, dims, "nm", attrs)
    ref = da.copy(deep=True)
    kw = {} if with_attr and rng.random() < 0.6 else {"outof": src}
    kw.update({"dim": sd} if rng.random() < 0.5 else {"axis": ax})
    got = rbm.transform_coordinates(da, into=dst, **kw)
    close(got.values, want, "named conversion of DataArrays", details=str(kw))
    check(got.dims == tuple("%s_axis" % dst if d == sd else d for d in dims), "the spatial dimension is renamed", got.dims)
    check(list(got.coords["%s_axis" % dst].values) == LABELS[dst, n], "labels of the target system")
    check(set(got.coords) == set(coords) - {sd, "gone"} | {"%s_axis" % dst}, "other coordinates are kept", repr(got))
    for d in other:
        close(got.coords[d].values, coords[d], "other coordinates are kept")
    check(got.name == "nm" and got.attrs == dict(attrs, **({"coordinate_system": dst} if with_attr else {})), "name and attributes", got.attrs)
    check(da.identical(ref), "transform_coordinates does not modify the array")
    got = rbm.transform_coordinates(da, into=dst, outof=src, axis=ax, replace_dim=False)
    check(got.dims == da.dims and list(got.coords[sd].values) == LABELS[src, n], "replace_dim=False keeps the labels")
    close(got.values, want, "replace_dim=False")


@trial("C15", 20)
def rejected(rng):
    v = rng.normal(size=(2, 4))
    for nm in ["cartesian_to_polar", "polar_to_cartesian", "cartesian_to_spherical", "spherical_to_cartesian"]:
        raises(ValueError, lambda: getattr(cs, nm)(v), "wrong length")
    raises(ValueError, lambda: rbm.transform_coordinates(v[:, :3], into="spherical"), "no source system")
    raises(ValueError, lambda: rbm.transform_coordinates(v[:, :3], into="spherical", outof="nope"), "unknown system")
    raises(ValueError, lambda: rbm.transform_coordinates(v[:, :2], into="spherical", outof="polar"), "unknown conversion")

"""C15: coordinate conversions are mutual inverses."""
from contracts.common import *

LAY2 = [(r, a) for r in (1, 2, 3) for a in range(-r, r)]


def arr_along(name, rank, axis, n):
    p = axis % rank
    shape = dims(rank, fixed={p: n})
    a = real_array(name, shape)
    return a, shape, p


def comps(a, idx, p, n):
    rest = idx[:p] + idx[p:]
    return tuple(a.at(rest[:p] + (c,) + rest[p:]) for c in range(n))


def positions(shape, p):
    return S.all_indices(shape[:p] + shape[p + 1:])


def at_pos(a, i, p, n):
    return tuple(a.at(i[:p] + (c,) + i[p:]) for c in range(n))


def prove_all(ctx, props, cs):
    for name, g in props:
        ctx.prove(g, name, extra=cs)


PI = T.PI


@contract("C15", ["coordinate_systems.cartesian_to_polar", "coordinate_systems.polar_to_cartesian"], layout=LAY2)
def polar(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 2)
    m = mod("coordinate_systems")
    r = m.cartesian_to_polar(a, axis=axis)
    check_shape(r, shape, "cartesian_to_polar keeps the layout")
    back = m.polar_to_cartesian(r, axis=axis)
    check_shape(back, shape, "polar_to_cartesian keeps the layout")
    for i, cs in positions(shape, p):
        x, y = at_pos(a, i, p, 2)
        rad, phi = at_pos(r, i, p, 2)
        ctx.prove(T.land(T.cmp(">=", rad, 0), T.cmp("==", T.mul(rad, rad), x * x + y * y)), "radius is the vector length", extra=cs)
        ctx.prove(T.land(T.cmp("<=", phi, PI), T.cmp(">=", phi, T.neg(PI))), "azimuth lies in [-pi, pi]", extra=cs)
        ctx.prove(S.value_eq(T.mul(rad, T.cos(phi)), x), "azimuth is measured from the x axis (cosine)", extra=cs)
        ctx.prove(S.value_eq(T.mul(rad, T.sin(phi)), y), "azimuth is measured from the x axis (sine)", extra=cs)
        b = at_pos(back, i, p, 2)
        ctx.prove(S.value_eq(b[0], x), "converting back restores x", extra=cs)
        ctx.prove(S.value_eq(b[1], y), "converting back restores y", extra=cs)


@contract("C15", ["coordinate_systems.cartesian_to_spherical", "coordinate_systems.spherical_to_cartesian"], layout=LAY2)
def spherical(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 3)
    m = mod("coordinate_systems")
    r = m.cartesian_to_spherical(a, axis=axis)
    check_shape(r, shape, "cartesian_to_spherical keeps the layout")
    back = m.spherical_to_cartesian(r, axis=axis)
    check_shape(back, shape, "spherical_to_cartesian keeps the layout")
    for i, cs in positions(shape, p):
        v = at_pos(a, i, p, 3)
        x, y, z = v
        rad, th, phi = at_pos(r, i, p, 3)
        ctx.prove(T.land(T.cmp(">=", rad, 0), T.cmp("==", T.mul(rad, rad), T.qnorm2(v))), "radius is the vector length", extra=cs)
        ctx.prove(T.land(T.cmp(">=", th, 0), T.cmp("<=", th, PI)), "polar angle lies in [0, pi]", extra=cs)
        ctx.prove(T.land(T.cmp("<=", phi, PI), T.cmp(">=", phi, T.neg(PI))), "azimuth lies in [-pi, pi]", extra=cs)
        rho = T.sqrt(x * x + y * y)
        ctx.prove(S.value_eq(T.mul(rad, T.cos(th)), z), "polar angle is measured from the z axis (cosine)", extra=cs)
        ctx.prove(S.value_eq(T.mul(rad, T.sin(th)), rho), "polar angle is measured from the z axis (sine)", extra=cs)
        ctx.prove(S.value_eq(T.mul(rho, T.cos(phi)), x), "azimuth is measured from the x axis (cosine)", extra=cs)
        ctx.prove(S.value_eq(T.mul(rho, T.sin(phi)), y), "azimuth is measured from the x axis (sine)", extra=cs)
        b = at_pos(back, i, p, 3)
        hints = [T.zreal(T.mul(rad, T.cos(th))) == z, T.zreal(T.mul(rad, T.sin(th))) == rho, T.zreal(T.mul(rho, T.cos(phi))) == x,
                 T.zreal(T.mul(rho, T.sin(phi))) == y]
        for c in range(3):
            ctx.prove(S.value_eq(b[c], v[c]), "converting back restores the vector", extra=cs + hints)


@contract("C15", ["coordinate_systems.polar_to_cartesian"], layout=LAY2)
def from_polar(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 2)
    r = mod("coordinate_systems").polar_to_cartesian(a, axis=axis)
    check_array(r, shape, lambda i: T.mul(at_pos(a, i[:p] + i[p + 1:], p, 2)[0],
                                          [T.cos, T.sin][i[p]](at_pos(a, i[:p] + i[p + 1:], p, 2)[1])), "polar to cartesian")


@contract("C15", ["coordinate_systems.spherical_to_cartesian"], layout=LAY2)
def from_spherical(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 3)
    r = mod("coordinate_systems").spherical_to_cartesian(a, axis=axis)

    def spec(i):
        rad, th, phi = at_pos(a, i[:p] + i[p + 1:], p, 3)
        return [T.mul(T.mul(rad, T.sin(th)), T.cos(phi)), T.mul(T.mul(rad, T.sin(th)), T.sin(phi)), T.mul(rad, T.cos(th))][i[p]]

    check_array(r, shape, spec, "spherical to cartesian (ISO 80000-2)")


@contract("C15", ["coordinate_systems"], fn=["cartesian_to_polar", "polar_to_cartesian", "cartesian_to_spherical", "spherical_to_cartesian"])
def rejects_length(ctx, fn):
    n, k = fresh_int("n"), fresh_int("k")
    ctx.assume(k.e != (2 if "polar" in fn else 3))
    f = getattr(mod("coordinate_systems"), fn)
    must_raise(lambda: f(real_array("a", (n, k))), ValueError, "wrong lengths are rejected")
    must_raise(lambda: f(real_array("a", (k, n)), axis=0), ValueError, "wrong lengths are rejected")


@contract("C15", ["coordinate_systems.cartesian_to_polar", "coordinate_systems.polar_to_cartesian"], layout=[(1, 0), (2, -1), (2, 0), (3, 1)])
def polar_round_trip(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 2)
    m = mod("coordinate_systems")
    back = m.cartesian_to_polar(m.polar_to_cartesian(a, axis=axis), axis=axis)
    check_shape(back, shape, "round trip")
    for i, cs in positions(shape, p):
        rad, phi = at_pos(a, i, p, 2)
        r2, p2 = at_pos(back, i, p, 2)
        valid = cs + [rad >= 0, phi <= PI, phi > -PI]
        sq = S.value_eq(T.mul(r2, r2), rad * rad)
        ctx.prove(sq, "round trip restores the squared radius", extra=valid)
        same = z3.Implies(z3.And(rad >= 0, T.zreal(r2) >= 0, T.zreal(T.mul(r2, r2)) == rad * rad), T.zreal(r2) == rad)
        ctx.prove(T.cmp(">=", r2, 0), "round trip: radius is not negative", extra=valid)
        R = z3.Real("R")
        ctx.prove(R == rad, "round trip restores the radius", extra=[R >= 0, rad >= 0, R * R == rad * rad])
        for f, nm in ((T.cos, "cosine"), (T.sin, "sine")):
            ctx.prove(S.value_eq(T.mul(r2, f(p2)), T.mul(rad, f(phi))), "round trip restores the azimuth (r times %s)" % nm, extra=valid)


@contract("C15", ["coordinate_systems.cartesian_to_spherical", "coordinate_systems.spherical_to_cartesian"], layout=[(1, 0), (2, -1), (2, 0)])
def spherical_round_trip(ctx, layout):
    rank, axis = layout
    a, shape, p = arr_along("a", rank, axis, 3)
    m = mod("coordinate_systems")
    back = m.cartesian_to_spherical(m.spherical_to_cartesian(a, axis=axis), axis=axis)
    check_shape(back, shape, "round trip")
    for i, cs in positions(shape, p):
        rad, th, phi = at_pos(a, i, p, 3)
        r2, t2, p2 = at_pos(back, i, p, 3)
        valid = cs + [rad >= 0]
        ctx.prove(S.value_eq(T.mul(r2, r2), rad * rad), "round trip restores the squared radius", extra=valid)
        ctx.prove(S.value_eq(T.mul(r2, T.cos(t2)), T.mul(rad, T.cos(th))), "round trip restores the polar angle (r times cosine)", extra=valid)


# ------------------------------------------------- named conversions
CONV = [("cartesian", "polar", 2), ("polar", "cartesian", 2), ("cartesian", "spherical", 3), ("spherical", "cartesian", 3)]
LABELS = {("cartesian", 2): ["x", "y"], ("cartesian", 3): ["x", "y", "z"], ("polar", 2): ["r", "phi"], ("spherical", 3): ["r", "theta", "phi"]}


@contract("C15", ["transform_coordinates", "core._maybe_unpack_dataarray"], conv=CONV, layout=[(1, None), (2, None), (2, 0), (2, -2), (3, 1), (3, -1)])
def named_arrays(ctx, conv, layout):
    src, dst, n = conv
    rank, axis = layout
    a, shape, p = arr_along("a", rank, -1 if axis is None else axis, n)
    pkg = mod("")
    kw = {} if axis is None else {"axis": axis}
    r = pkg.transform_coordinates(a, into=dst, outof=src, **kw)
    want = getattr(mod("coordinate_systems"), "%s_to_%s" % (src, dst))(a, axis=p)
    check_array(r, shape, lambda i: want.at(i), "named conversion of arrays is the conversion function")


@contract("C15", ["transform_coordinates", "core._replace_dim", "core._make_dataarray", "core._maybe_unpack_dataarray"], conv=CONV,
          layout=[(1, 0), (2, 0), (2, 1), (3, 1), (3, 2)], how=["axis", "neg", "dim", "attr", "keep"])
def named_dataarrays(ctx, conv, layout, how):
    src, dst, n = conv
    rank, p = layout
    a, shape, _ = arr_along("a", rank, p, n)
    sd = src + "_axis"
    names = ["k%d" % i for i in range(rank)]
    names[p] = sd
    co = {sd: LABELS[src, n], "gone": (sd, real_array("gone", (n,)))}
    others = [i for i in range(rank) if i != p]
    for i in others:
        co["k%d" % i] = real_array("k%d" % i, (shape[i],))
        co["lab%d" % i] = ("k%d" % i, label_array("lab%d" % i, shape[i]))
    attrs = {"units": "m", "x": 3}
    if how in ("attr", "keep", "dim"):
        attrs["coordinate_system"] = src
    da = data_array(a, names, co, attrs=attrs)
    kw = {"axis": {"axis": p}, "neg": {"axis": p - rank}, "dim": {"dim": sd}, "attr": {"axis": p}, "keep": {"dim": sd, "replace_dim": False}}[how]
    if how not in ("attr", "dim"):
        kw["outof"] = src
    r = mod("").transform_coordinates(da, into=dst, **kw)
    if "coordinate_system" in attrs:
        attrs = dict(attrs, coordinate_system=dst)
    keep = how == "keep"
    nd = sd if keep else dst + "_axis"
    what = "named conversion of DataArrays"
    check_da(r, [nd if d == sd else d for d in names], "nm", attrs, what)
    want = getattr(mod("coordinate_systems"), "%s_to_%s" % (src, dst))(a, axis=p)
    check_array(r.data, shape, lambda i: want.at(i), what + ": same numbers as for arrays")
    check_labels(r, nd, LABELS[src if keep else dst, n], what + ": labels of the target system")
    for i in others:
        check_coord(r, "k%d" % i, ("k%d" % i,), (shape[i],), lambda j, i=i: da._coords["k%d" % i][1].at(j), what + ": other coordinates are kept")
        check_coord(r, "lab%d" % i, ("k%d" % i,), (shape[i],), lambda j, i=i: da._coords["lab%d" % i][1].at(j), what + ": other coordinates are kept")
    ok(set(r.coords) == (set(da.coords) - (set() if keep else {sd, "gone"})) | {nd}, what + ": no other coordinates", str(list(r.coords)))


@contract("C15", ["transform_coordinates"])
def named_rejects(ctx):
    a = real_array("a", (fresh_int("n"), 3))
    f = mod("").transform_coordinates
    must_raise(lambda: f(a, into="spherical"), ValueError, "the source system must be known")
    for s, d in [("polar", "spherical"), ("spherical", "polar"), ("cartesian", "nope"), ("nope", "cartesian")]:
        must_raise(lambda: f(a, into=d, outof=s), ValueError, "unknown conversions are rejected")

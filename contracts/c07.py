"""C07: results are independent of the array layout."""
from contracts.velocities import *

FN = METHODS + AXES + ARRAYS


def layouts(ranks=(2, 3, 4)):
    out = []
    for r in ranks:
        for a in range(r):
            for b in range(r):
                if a == b:
                    continue
                signs = [(0, 0), (1, 0), (0, 1), (1, 1)] if r < 4 else [(0, 0), (1, 1)]
                out += [(r, a - r * s, b - r * u) for s, u in signs]
    return out


@contract("C07", FN, layout=layouts(), what=WHAT)
def stamped(ctx, layout, what):
    rank, axis, time_axis = layout
    m = mod("reference_frames")
    p = Path(ctx, m, True)
    n = fresh_int("n", 2)
    arr, w = data(ctx, what, rank, axis, n=n, time_axis=time_axis % rank)
    ts = timestamps("ts", n, strict=True)
    r, tso = getattr(p.a, "transform_" + what)(arr, p.to, axis=axis, time_axis=time_axis, timestamps=ts, return_timestamps=True)
    check_moving(r, tso, arr, ts, what, axis, time_axis, p, w, "transform of the array in its layout")


@contract("C07", FN, layout=[(r, a - r * s) for r in (1, 2, 3, 4) for a in range(r) for s in (0, 1)], what=WHAT, time_axis=[0, -1])
def unstamped(ctx, layout, what, time_axis):
    rank, axis = layout
    m = mod("reference_frames")
    p = Path(ctx, m, False)
    arr, w = data(ctx, what, rank, axis)
    r = getattr(p.a, "transform_" + what)(arr, p.to, axis=axis, time_axis=time_axis)
    t, q, _ = p.lookups[-1]
    check_static(r, arr, what, axis, [t.at((c,)) for c in range(3)], [q.at((c,)) for c in range(4)], w, "transform of the array in its layout")


@contract("C07", FN, layout=[(r, a - r * s) for r in (1, 2, 3, 4) for a in range(r) for s in (0, 1)], what=WHAT, time_axis=[0, -1])
def unstamped_moving(ctx, layout, what, time_axis):
    """An array without timestamps between moving frames: the result has a time axis in front of the array's layout."""
    rank, axis = layout
    m = mod("reference_frames")
    p = Path(ctx, m, True)
    arr, w = data(ctx, what, rank, axis)
    r, ts = getattr(p.a, "transform_" + what)(arr, p.to, axis=axis, time_axis=time_axis, return_timestamps=True)
    t, q, tso = p.lookups[-1]
    ok(ts is tso, "the timestamps of the frames")
    ax, n = axis % rank, tso.shape[0]

    def want(idx):
        j = idx[0]
        v = fibre(arr, idx[1:], ax, None, w)(0)
        return sel(transformed(what, [t.at((j, c)) for c in range(3)], [q.at((j, c)) for c in range(4)], v), idx[1:][ax])

    check_array(r, (n,) + tuple(arr.shape), want, "transform of the array in its layout at every timestamp")


VLAY = [l for l in layouts((2, 3)) if l[1] < 0 or l[2] < 0] + [(2, 0, 1), (3, 0, 1), (3, 1, 2), (4, 0, -1), (4, -2, 1), (4, 1, 3)]


@contract("C07", VEL, kind=["angular", "linear"], what=["reference_frame", "moving_frame", "representation_frame"], layout=VLAY)
def velocities(ctx, kind, what, layout):
    velocity_transform(ctx, kind, what, layout, True, [frozenset("ab")])


@contract("C07", VEL, kind=["angular", "linear"], what=["reference_frame", "moving_frame", "representation_frame"],
          layout=[(r, a - r * s) for r in (1, 2, 3) for a in range(r) for s in (0, 1)])
def unstamped_velocities(ctx, kind, what, layout):
    velocity_transform(ctx, kind, what, layout + (0,), False, [])


@contract("C07", VEL, kind=["angular", "linear"], what=["reference_frame", "moving_frame", "representation_frame"],
          layout=[(r, a - r * s) for r in (2, 3) for a in range(r) for s in (0, 1)], rotating=[True, False])
def unstamped_velocities_moving(ctx, kind, what, layout, rotating):
    """rotating: the two frames move; otherwise only the lever arm and the other reference do."""
    velocity_transform(ctx, kind, what, layout + (0,), False, [frozenset("ab")] if rotating else [frozenset("ac"), frozenset("ad")])

from trees import *


def array_times(rng, w):
    unit = UNITS[int(rng.integers(4))] if w.datetimes else None
    n = int(rng.integers(2, 12))
    t = np.sort(rng.choice(np.arange(-2, 44), n, replace=False))
    return (t if w.datetimes else t * 0.25), unit


@trial("C04", 150)
def lookups(rng):
    w = World(rng, kinds=[("static", "cont", "disc"), ("static", "disc"), ("disc",), ("cont",), ("static",)][int(rng.integers(5))])
    for _ in range(4):
        a, b = pair(rng, w)
        t = w.out_times(a, b)
        if t is not None and len(t) == 0:
            continue
        r = rbm.lookup_transform(w.ref(a), w.ref(b), return_timestamps=True)
        same_times(r[2], t, w.datetimes, "lookup")


@trial("C04", 150)
def arrays(rng):
    w = World(rng)
    for _ in range(4):
        a, b = pair(rng, w)
        t, unit = array_times(rng, w)
        want = w.out_times(a, b, t)
        if len(want) == 0:
            continue
        v, ts = w.frames[a].rf.transform_vectors(rng.normal(size=(len(t), 3)), w.ref(b), timestamps=stamps(t, unit), return_timestamps=True)
        same_times(ts, want, w.datetimes, "array with timestamps")
        check(v.shape == (len(want), 3), "samples of the result", str(v.shape))
        want = w.out_times(a, b)
        if want is not None and len(want) == 0:
            continue
        v, ts = w.frames[a].rf.transform_vectors(rng.normal(size=3), w.ref(b), return_timestamps=True)
        same_times(ts, want, w.datetimes, "vector without timestamps")


@trial("C04", 100)
def matched(rng):
    dt = bool(rng.random() < 0.5)
    k = int(rng.integers(1, 5))
    arrays, ranged = [], []
    for _ in range(k):
        if rng.random() < 0.3:
            arrays.append((rng.normal(size=3), None))
            continue
        n = int(rng.integers(2, 9))
        t = np.sort(rng.choice(np.arange(0, 30), n, replace=False))
        t = t if dt else t * 0.25
        ranged.append(t)
        arrays.append((rng.normal(size=(n, 3)), stamps(t, UNITS[int(rng.integers(4))] if dt else None)))
    want = None
    if ranged:
        lo, hi = max(t[0] for t in ranged), min(t[-1] for t in ranged)
        want = ranged[0][(ranged[0] >= lo) & (ranged[0] <= hi)]
        if len(want) == 0:
            return
    r = rbm.ReferenceFrame._match_arrays(arrays)
    check(len(r) == k + 1, "one result per array")
    same_times(r[-1], want, dt, "common timestamps")

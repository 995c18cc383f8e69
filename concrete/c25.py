import itertools
import os
import tempfile
from datetime import datetime, timedelta

import numpy as np
from base import *
from c14 import chain
from rigid_body_motion.io import load_optitrack

ROT = ["".join(p) for p in itertools.permutations("XYZ")]


def write(path, rng, bodies, n, units, rot, start, data, times, layout, error, markers, blank=False, whole=False):
    """An export file in Optitrack's format; returns nothing."""
    meta = ["Format Version", "1.22", "Take Name", "Test", "Capture Frame Rate", "240", "Capture Start Time", start, "Total Exported Frames", str(n)]
    if rot:
        meta += ["Rotation Type", rot]
    if units:
        meta += ["Length Units", units]
    meta += ["Coordinate Space", "Global"]
    cols = []
    for b in bodies:
        blocks = [("Rotation", "XYZ"), ("Position", "XYZ")]
        if layout == "position first":
            blocks = blocks[::-1]
        for kind, axes in blocks:
            cols += [("Rigid Body", b, kind, a, data[b][kind]["XYZ".index(a)]) for a in axes]
        if error:
            cols.append(("Rigid Body", b, "Mean Marker Error", "", rng.random(n)))
    if layout == "interleaved":
        cols.sort(key=lambda c: (c[2] != "Rotation", c[2] != "Position"))
    mk = [("Marker", "%s:Marker%d" % (b, k), "Position", a, rng.normal(size=n)) for b in bodies for k in (1, 2) for a in "XYZ"]
    cols = {0: cols, 1: cols + mk, 2: mk + cols}[markers]
    width = max(len(meta), 2 + len(cols))
    rows = [meta, [], ["", ""] + [c[0] for c in cols], ["", ""] + [c[1] for c in cols], ["", ""] + ["ID" + c[1] for c in cols],
            ["", ""] + [c[2] for c in cols], ["Frame", "Time (Seconds)"] + [c[3] for c in cols]]
    for i in range(n):
        rows.append([str(i), "%.6f" % times[i]] + ["%d" % c[4][i] if whole else repr(float(c[4][i])) for c in cols])
    with open(path, "w") as f:
        for r in rows:
            f.write("\n" if blank and not r else ",".join(r + [""] * (width - len(r))) + "\n")


@trial("C25", 60)
def imported(rng):
    names = ["RigidBody 01", "RigidBody 02", "Head", "a", "Zeta", "left hand", "10"]
    bodies = [str(b) for b in rng.permutation(names)[: int(rng.integers(1, 5))]]
    n = int(rng.integers(1, 6))
    units = [None, "Meters", "Centimeters"][int(rng.integers(3))]
    rot = [None, *ROT][int(rng.integers(7))]
    hour, fmt = int(rng.integers(24)), "%Y-%m-%d %I.%M.%S.%f"
    t0 = datetime(2020, int(rng.integers(1, 13)), int(rng.integers(1, 29)), hour, int(rng.integers(60)), int(rng.integers(60)), int(rng.integers(1000)) * 1000)
    start = t0.strftime(fmt)[:-3] + (" PM" if hour >= 12 else " AM")
    times = np.round(np.cumsum(rng.random(n)) * rng.choice([1.0, 1000.0]), 6)
    data = {b: {k: [rng.normal(size=n) * s for _ in range(3)] for k, s in (("Rotation", 90.0), ("Position", 50.0))} for b in bodies}
    blank, whole = bool(rng.random() < 0.3), bool(rng.random() < 0.2)
    if whole:
        data = {b: {k: [np.round(x) for x in v] for k, v in d.items()} for b, d in data.items()}
    layout = ["rotation first", "position first", "interleaved"][int(rng.integers(3))]
    error, markers = bool(rng.random() < 0.5), int(rng.integers(3))
    what = "%d bodies, units %s, rotation %s, %s" % (len(bodies), units, rot, layout)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "take.csv")
        write(path, rng, bodies, n, units, rot, start, data, times, layout, error, markers, blank, whole)
        num, pan, xar = load_optitrack(path), load_optitrack(path, "pandas"), load_optitrack(path, "xarray")
        raises(ValueError, lambda: load_optitrack(path, "csv"), "unknown formats")
    stamps = np.array([np.datetime64(t0, "us") + np.timedelta64(int(round(t * 1e6)), "us") for t in times])
    for res in (num, pan, xar):
        check(set(res) == set(bodies), "one entry for each rigid body", "%s instead of %s" % (sorted(res), bodies))
    order = (rot or "XYZ").translate(str.maketrans("XYZ", "rpy"))
    for b in bodies:
        p = np.stack(data[b]["Position"], axis=1) * (0.01 if units == "Centimeters" else 1.0)
        q = chain(order, {c: np.deg2rad(x) for c, x in zip("rpy", data[b]["Rotation"])})
        x = xar[b]
        check(list(pan[b].columns) == [("position", a) for a in "xyz"] + [("orientation", a) for a in "wxyz"], "columns", "%s" % list(pan[b].columns))
        check(x.position.dims == ("time", "cartesian_axis") and x.orientation.dims == ("time", "quaternion_axis"), "dimensions", "%s" % (x.dims,))
        check(list(x.cartesian_axis.values) == list("xyz") and list(x.quaternion_axis.values) == list("wxyz"), "labels of the axes")
        for f, (gp, gq, gt) in {"numpy": num[b], "pandas": (pan[b]["position"].values, pan[b]["orientation"].values, pan[b].index.values),
                                "xarray": (x.position.values, x.orientation.values, x.time.values)}.items():
            close(gp, p, "positions in meters (%s)" % f, details=what)
            close(gq, q, "orientations in the rotation order declared (%s)" % f, details=what)
            close(np.linalg.norm(gq, axis=1), np.ones(n), "unit quaternions (%s)" % f)
            check(gt.shape == (n,) and np.issubdtype(gt.dtype, np.datetime64) and bool(np.all(np.abs((gt - stamps) / np.timedelta64(1, "ns")) <= 1000)),
               "capture start plus frame time (%s)" % f, "%s instead of %s" % (gt[:3], stamps[:3]))

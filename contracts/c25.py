"""C25: what an Optitrack export file becomes.

pandas is replaced by its contract (pyvc/sympd.py): the columns of the file are named by its header rows and carry symbolic
values in any number of rows.  The layouts of the header are enumerated, the values and the number of frames are not.
"""
import itertools

from contracts.common import *
from contracts.c14 import chain
from pyvc import sympd

ASSUMES = [
    "pandas: read_csv, the selection and grouping of columns, to_datetime, to_timedelta and concat follow pyvc/sympd.py (cross-checked by trials on real files)",
    "header layouts are enumerated (1-3 bodies, order of blocks, interleaved columns, markers, error columns); rows and values are symbolic",
]

FN = ["io.load_optitrack", "utils.from_euler_angles"]
ROT = ["".join(p) for p in itertools.permutations("XYZ")]
FORMATS = ["numpy", "pandas", "xarray"]
START = {"2020-06-16 07.51.41.245 PM": 1592337101245000000, "2019-12-31 12.00.00.001 AM": 1577750400001000000}


class Export:
    """An export file of these bodies; the symbolic values by body, motion type and axis."""

    def __init__(self, ctx, bodies, units=None, rot=None, layout="rotation first", error=False, markers=0, blank=False, start=None):
        self.n = fresh_int("n", 1)
        self.start = start or next(iter(START))
        self.v = {(b, m, a): self.column("%s.%s" % (m, a)) for b in bodies for m in ("Rotation", "Position") for a in "XYZ"}
        cols = []
        for b in bodies:
            blocks = ["Rotation", "Position"][::-1 if layout == "position first" else 1]
            cols += [("Rigid Body", b, m, a, self.v[b, m, a]) for m in blocks for a in "XYZ"]
            if error:
                cols.append(("Rigid Body", b, "Mean Marker Error", "", self.column("error")))
        if layout == "interleaved":
            cols.sort(key=lambda c: (c[2] != "Rotation", c[2] != "Position"))
        mk = [("Marker", "%s:Marker1" % b, "Position", a, self.column("marker")) for b in bodies for a in "XYZ"]
        cols = {0: cols, 1: cols + mk, 2: mk + cols}[markers]
        meta = ["Format Version", "1.22", "Take Name", "Test", "Capture Frame Rate", "240", "Capture Start Time", self.start]
        meta += ["Rotation Type", rot] if rot else []
        meta += ["Length Units", units] if units else []
        meta += ["Coordinate Space", "Global"]
        self.time = self.column("time")
        width = 2 + len(cols)
        head = [meta, None if blank else [""] * width] + [["", ""] + [c[k] for c in cols] for k in (0, 1)]
        head += [["", ""] + ["ID " + c[1] for c in cols], ["", ""] + [c[2] for c in cols], ["Frame", "Time (Seconds)"] + [c[3] for c in cols]]
        data = [real_array("frame", (self.n,), kind="i", owner=False), self.time] + [c[4] for c in cols]
        self.path = "take.csv"
        ctx.store["shims"] = sympd.modules(sympd.CsvFile(self.path, head, data, self.n))
        self.order = (rot or "XYZ").replace("X", "r").replace("Y", "p").replace("Z", "y")
        self.scale = T.div(1, 100) if units == "Centimeters" else 1

    def column(self, name):
        return real_array(name, (self.n,), owner=False)

    def position(self, b):
        return lambda i: T.mul(self.v[b, "Position", "XYZ"[i[1]]].at(i[:1]), self.scale)

    def orientation(self, b):
        rad = lambda a, i: T.div(T.mul(self.v[b, "Rotation", a].at(i[:1]), T.PI), 180)
        return lambda i: chain(self.order, {c: rad(a, i) for c, a in zip("rpy", "XYZ")})[i[1]]

    def check_body(self, b, fmt, entry):
        if fmt == "numpy":
            ok(isinstance(entry, tuple) and len(entry) == 3, "an entry is (position, orientation, timestamps)", "%s" % type(entry))
            p, q, t = entry
        elif fmt == "pandas":
            ok(isinstance(entry, sympd.Frame), "an entry is a frame", type(entry).__name__)
            want = [("position", a) for a in "xyz"] + [("orientation", a) for a in "wxyz"]
            ok(list(entry.columns) == want, "columns of the frame", "%s" % list(entry.columns))
            if list(entry.columns) != want:
                raise PathEnd()
            p, q, t = entry["position"].values, entry["orientation"].values, entry.index.values
        else:
            p, q = entry.data_vars["position"], entry.data_vars["orientation"]
            ok(set(entry.data_vars) == {"position", "orientation"}, "variables of the dataset", "%s" % sorted(entry.data_vars))
            ok(all("time" in a.coords for a in (p, q)), "the timestamps are a coordinate", "")
            for a, axis, lab in ((p, "cartesian_axis", "xyz"), (q, "quaternion_axis", "wxyz")):
                ok(tuple(a.dims) == ("time", axis), "dimensions", "%s" % (a.dims,))
                if tuple(a.dims) != ("time", axis) or "time" not in a.coords:
                    raise PathEnd()
                check_labels(a, axis, list(lab), "labels of the axes")
            t = q.coords["time"].values
            p, q = p.values, q.values
        check_array(p, (self.n, 3), self.position(b), "positions in meters")
        check_array(q, (self.n, 4), self.orientation(b), "orientations in the rotation order declared")
        check_shape(t, (self.n,), "timestamps")
        check_dtype(t, "M", "timestamps")
        i = z3.Int(C().fresh("row"))
        got = T.mul(t.at((i,)), S.unit_ns(t.dtype.unit))
        d = T.zreal(got) - T.zreal(self.time.at((i,))) * 10**9 - START[self.start]
        C().prove(z3.And(d <= 1000, d >= -1000), "timestamps are capture start plus frame time (within a microsecond)", extra=[i >= 0, i < S.dz(self.n)])

    def check(self, fmt, bodies):
        kw = {} if fmt is None else {"import_format": fmt}
        r = must_not_raise(lambda: mod("io").load_optitrack(self.path, **kw), "a well-formed file is imported")
        sympd.unwritten()
        ok(hasattr(r, "items") and sorted(r) == sorted(bodies), "one entry for each rigid body", "%s" % (list(r),))
        if not hasattr(r, "items") or sorted(r) != sorted(bodies):
            raise PathEnd()
        for b in bodies:
            self.check_body(b, fmt or "numpy", r[b])


BODIES = {"one": ["RigidBody 01"], "unsorted": ["Zeta", "Alpha"], "three": ["b", "left hand", "a"]}


@contract("C25", FN, bodies=list(BODIES), layout=["rotation first", "position first", "interleaved"], error=[False, True], markers=[0, 1, 2], fmt=FORMATS)
def layouts(ctx, bodies, layout, error, markers, fmt):
    """Every body gets its own columns, wherever they are in the file."""
    Export(ctx, BODIES[bodies], "Centimeters", "ZXY", layout, error, markers).check(fmt, BODIES[bodies])


@contract("C25", FN, units=[None, "Meters", "Centimeters"], rot=[None] + ROT, fmt=FORMATS)
def declared(ctx, units, rot, fmt):
    """Units and rotation order are those declared in the file."""
    Export(ctx, BODIES["unsorted"], units, rot).check(fmt, BODIES["unsorted"])


@contract("C25", FN, start=list(START), blank=[False, True], fmt=FORMATS + [None])
def capture_start(ctx, start, blank, fmt):
    Export(ctx, BODIES["one"], start=start, blank=blank).check(fmt, BODIES["one"])


@contract("C25", FN, fmt=["csv", "NUMPY", ""])
def unknown_format(ctx, fmt):
    e = Export(ctx, BODIES["one"])
    must_raise(lambda: mod("io").load_optitrack(e.path, fmt), ValueError, "unknown formats are rejected")


@contract("C25", ["spec"], rot=ROT)
def unit_quaternions(ctx, rot):
    a = {c: z3.Real(c) for c in "rpy"}
    ctx.prove(T.qnorm2(chain(rot.replace("X", "r").replace("Y", "p").replace("Z", "y"), a)) == 1, "lemma: the orientations are unit quaternions")

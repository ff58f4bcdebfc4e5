"""C18: OptiTrack import yields the recorded poses."""
import datetime
import os
import pathlib
import tempfile

import numpy as np
import rigid_body_motion.io as rio

from .. import gen as G, oracle as O
from ..core import Prop
from .c14 import compose

prop = Prop(
    "C18",
    "OptiTrack import",
    "synthetic Motive csv exports: 1-6 bodies with hostile names in any "
    "column order, markers and rigid body markers in between, all 6 rotation "
    "orders or none given, units missing/Meters/Centimeters, AM/PM starts, "
    "1-40 rows with irregular times, integers, missing samples, padded or "
    "short metadata rows. The monitor compares every imported sample with "
    "what the generator wrote. Non-trivial: every file; signature = (bodies, "
    "markers, order, unit, format, missing, hour).",
    quick=2400, thorough=30000,
    assumptions=["Rotation exported as Euler angles, metres or centimetres"],
)
prop.require("monitor:bodies", "monitor:position", "monitor:orientation",
             "monitor:timestamps", "monitor:formats", "unit:Centimeters",
             "unit:Meters", "unit:none", "missing:samples", "order:ZYX",
             "hour:12AM", "hour:12PM")

NAMES = ["RigidBody 01", "RigidBody 02", "head", "Head", "left eye", "123",
         "B", "a:b", "Body.1", "Zeta_9", "Rigid Body", "Marker", "Übung",
         "RigidBody 10", "position", "X", "time"]
ORDERS = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"]


def write(ctx, path):
    rng = ctx.rng
    nb = int(rng.integers(1, 7))
    names = [str(x) for x in rng.permutation(NAMES)[:nb]]
    n = int(rng.choice([1, 2, 3, G.count(rng, 4, 40, 0.01, 4.3)]))
    order = [None, *ORDERS][rng.integers(7)]
    unit = [None, "Meters", "Centimeters"][rng.integers(3)]
    hour = int(rng.choice([0, 12, int(rng.integers(24))]))
    start = datetime.datetime(2020, int(rng.integers(1, 13)),
                              int(rng.integers(1, 29)), hour,
                              int(rng.integers(60)), int(rng.integers(60)),
                              int(rng.integers(1000)) * 1000)
    if hour in (0, 12):
        ctx.events["hour:12" + ("AM" if hour == 0 else "PM")] += 1
    meta = {"Format Version": "1.22", "Take Name": "Take 01",
            "Capture Frame Rate": "240", "Export Frame Rate": "60",
            "Capture Start Time": start.strftime("%Y-%m-%d %I.%M.%S.")
            + "%03d" % (start.microsecond // 1000) + start.strftime(" %p"),
            "Total Frames in Take": "904", "Total Exported Frames": str(n)}
    if order:
        meta["Rotation Type"] = order
        ctx.events["order:" + order] += 1
    ctx.events["unit:" + (unit or "none")] += 1
    if unit:
        meta["Length Units"] = unit
    if rng.random() < 0.4:
        meta["Coordinate Space"] = "Global"
    keys = [str(k) for k in rng.permutation(list(meta))]
    # times
    t = np.cumsum(np.concatenate(
        [[rng.choice([0.0, rng.uniform(0, 900)])],
         rng.uniform(0.001, 0.05, n - 1)]))
    t = np.round(t, 6)
    first = int(rng.choice([0, rng.integers(0, 1000)]))
    cols = []  # (type, name, id, motion, axis, values)
    bodies = {}
    miss = rng.random() < 0.35
    integer = rng.random() < 0.15
    for i, b in enumerate(names):
        ang = rng.uniform(-180, 180, (n, 3))
        pos = rng.uniform(-3, 3, (n, 3)) * (100 if unit == "Centimeters" else 1)
        if rng.random() < 0.2:
            ang = rng.choice([0.0, 90, -90, 180], (n, 3))
        if integer:
            ang, pos = np.round(ang), np.round(pos)
        ang, pos = np.round(ang, 6), np.round(pos, 6)
        if miss and rng.random() < 0.7:
            ctx.events["missing:samples"] += 1
            gone = rng.random(n) < 0.3
            ang[gone], pos[gone] = np.nan, np.nan
        bodies[b] = (ang, pos)
        grp = [("Rigid Body", b, "ID%d" % i, m, a, v[:, k])
               for m, v in (("Rotation", ang), ("Position", pos))
               for k, a in enumerate("XYZ")]
        if rng.random() < 0.2:
            grp.append(("Rigid Body", b, "ID%d" % i, "Mean Marker Error", "",
                        np.round(rng.random(n), 6)))
        cols.append(grp)
        for j in range(int(rng.integers(0, 4))):
            ty = str(rng.choice(["Marker", "Rigid Body Marker"]))
            nm = b + ":Marker%d" % j if rng.random() < 0.7 else \
                "Unlabeled %d%d" % (i, j)
            cols.append([(ty, nm, "M%d" % j, "Position", a,
                          rng.standard_normal(n)) for a in "XYZ"])
    if rng.random() < 0.6:
        idx = rng.permutation(len(cols))
        cols = [cols[i] for i in idx]
    flat = [c for g in cols for c in g]
    width = len(flat) + 2
    pad = rng.random() < 0.7
    row0 = [x for k in keys for x in (k, meta[k])]
    if pad:
        row0 += [""] * (width - len(row0))
    fmt = (lambda v: "" if np.isnan(v) else
           ("%d" % v if integer else "%.6f" % v))
    lines = [",".join(row0), "," * (width - 1) if pad or rng.random() < 0.5
             else "",
             ",".join(["", ""] + [c[0] for c in flat]),
             ",".join(["", ""] + [c[1] for c in flat]),
             ",".join(["", ""] + [c[2] for c in flat]),
             ",".join(["", ""] + [c[3] for c in flat]),
             ",".join(["Frame", "Time (Seconds)"] + [c[4] for c in flat])]
    for r in range(n):
        lines.append(",".join(["%d" % (first + r), "%.6f" % t[r]]
                              + [fmt(c[5][r]) for c in flat]))
    nl = "\r\n" if rng.random() < 0.3 else "\n"
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(nl.join(lines) + nl)
    ctx.describe(names=names, n=n, order=order, unit=unit, start=str(start))
    ts = np.datetime64(start).astype("M8[ns]") + np.round(
        t * 1e9).astype(np.int64).astype("m8[ns]")
    return bodies, ts, order or "XYZ", unit, len(flat) - 6 * nb, hour


def verify(ctx, got, bodies, ts, order, unit):
    ctx.check(set(got) == set(bodies), "bodies", got=sorted(got),
              want=sorted(bodies))
    for b, (ang, pos) in bodies.items():
        p, q, t = got[b]
        p, q = np.asarray(p, float), np.asarray(q, float)
        ctx.check(p.shape == pos.shape and q.shape == (len(pos), 4),
                  "position", f"shapes {p.shape} {q.shape}")
        k = 0.01 if unit == "Centimeters" else 1.0
        ctx.close(p, pos * k, "position", 1e-9, body=b)
        err = np.abs((np.asarray(t).astype("M8[ns]") - ts).astype(np.int64))
        ctx.check(err.max(initial=0) <= 1000, "timestamps", got=t, want=ts)
        ok = ~np.isnan(ang[:, 0])
        ctx.check(np.all(np.isnan(q[~ok])), "orientation",
                  "missing samples must be NaN")
        ctx.check(np.all(np.isfinite(q[ok])), "orientation", "NaN appeared")
        if ok.any():
            o = "".join("rpy"["XYZ".index(c)] for c in order)
            R = compose(o, np.deg2rad(ang[ok]).T)
            nr = np.linalg.norm(q[ok], axis=-1)
            ctx.close(nr, np.ones_like(nr), "orientation", 1e-9)
            ctx.close(O.q2R(q[ok]), R, "orientation", 1e-8, order=order,
                      body=b)


@prop.scenario(1)
def files(ctx):
    rng = ctx.rng
    with tempfile.TemporaryDirectory(prefix="rbmv-c18-") as d:
        path = os.path.join(d, "take.csv")
        bodies, ts, order, unit, nm, hour = write(ctx, path)
        p = path if rng.random() < 0.5 else pathlib.Path(path)
        res = ctx.call(rio.load_optitrack, p)
        verify(ctx, res, bodies, ts, order, unit)
        fmt = str(rng.choice(["numpy", "pandas", "xarray"]))
        r2 = ctx.call(rio.load_optitrack, p, fmt)
        if fmt == "numpy":
            conv = r2
        elif fmt == "pandas":
            conv = {k: (v["position"][["x", "y", "z"]].values,
                        v["orientation"][["w", "x", "y", "z"]].values,
                        v.index.values) for k, v in r2.items()}
        else:
            for v in r2.values():
                ctx.check(v.position.dims == ("time", "cartesian_axis")
                          and v.orientation.dims == ("time",
                                                     "quaternion_axis"),
                          "formats", "dims")
                ctx.check(list(v.cartesian_axis.values) == list("xyz")
                          and list(v.quaternion_axis.values) == list("wxyz"),
                          "formats", "labels")
            conv = {k: (v.position.values, v.orientation.values,
                        v.time.values) for k, v in r2.items()}
        verify(ctx, conv, bodies, ts, order, unit)
        for k in res:
            for a, b in zip(res[k][:2], conv[k][:2]):
                ctx.close(b, a, "formats", 1e-12, fmt)
            ctx.close(conv[k][2], res[k][2], "formats")
        bad = str(rng.choice(["hdf", "", "Numpy"]))
        ctx.rejects(ValueError, rio.load_optitrack, p, bad)
    ctx.nontrivial(len(bodies), min(nm, 6), order, unit, fmt, hour % 12 == 0,
                   min(len(ts), 4),
                   any(np.isnan(a).any() for a, _ in bodies.values()))

"""C02: moving-frame lookups are sampled and interpolated on the right grid."""
import numpy as np
import rigid_body_motion as rbm

from .. import gen as G, oracle as O
from ..arrays import tolerance
from ..core import Prop

prop = Prop(
    "C02",
    "moving lookups",
    "random trees mixing static and continuous frames with different, "
    "overlapping, nested or disjoint time ranges, regular and irregular grids, "
    "float/int/datetime64[ns|us|ms] timestamps, sign-flipped quaternion "
    "streams; each looked-up sample is compared with an independent linear + "
    "SQUAD matrix oracle. Non-trivial: at least one continuous frame on the "
    "path; signature = (clock, #moving up, #moving down, first frame's "
    "direction, number of kept samples bucket, API form).",
    quick=3750, thorough=60000,
    assumptions=[
        "strictly increasing timestamps, at least 2 samples per frame",
        "rotation steps well below 180 degrees (SQUAD is ambiguous there)",
    ],
)
prop.require("monitor:timestamps", "monitor:translation", "monitor:rotation",
             "grid:clipped", "grid:interpolated", "grid:empty", "grid:boundary",
             "grid:fine",
             "monitor:dataset-time")


def verify_lookup(ctx, a, b, got, prefix="", tol=2e-7, want=None):
    """Compare (t, q, ts) with the oracle; returns oracle result."""
    t, R, ts = want if want is not None else O.lookup(a, b)
    up, down = O.path(a, b)
    tol = min(tol, tolerance(up + down, None, ts))
    gt, gq, gts = got
    if ts is None:
        ctx.check(gts is None, "timestamps", "expected static", got=gts)
    else:
        ctx.check(gts is not None, "timestamps", "timestamps missing")
        ctx.close(np.asarray(gts), np.asarray(ts), "timestamps",
                  pair=(a.name, b.name))
    n = () if ts is None else (len(ts),)
    gt, gq = np.asarray(gt), np.asarray(gq)
    ctx.check(gt.shape == n + (3,), "translation", f"shape {gt.shape}",
              expected=n + (3,))
    ctx.check(gq.shape == n + (4,), "rotation", f"shape {gq.shape}",
              expected=n + (4,))
    scale = 1.0 + np.abs(t).max(initial=0.0) + max(
        [np.abs(f.t).max() for f in a.ancestors() + b.ancestors()
         if f.t is not None] + [0])
    ctx.close(gt / scale, t / scale, "translation", tol, pair=(a.name, b.name))
    if gq.size:
        ctx.close(np.linalg.norm(gq, axis=-1), np.ones(n), "rotation", 1e-7)
        ctx.close(O.q2R(gq), R, "rotation", tol, pair=(a.name, b.name))
    return t, R, ts


def do_lookup(ctx, a, b):
    form = int(ctx.rng.integers(5))
    ra, rb = G.ref(ctx, a), G.ref(ctx, b)
    if form == 0:
        out = ctx.call(rbm.lookup_transform, ra, rb, return_timestamps=True)
    elif form == 1:
        out = ctx.call(a.obj.lookup_transform, rb)
    elif form == 2:
        out = ctx.call(rbm.lookup_pose, ra, rb, return_timestamps=True)
    elif form == 3:
        fn = rbm.lookup_pose if ctx.rng.random() < 0.4 else rbm.lookup_transform
        out = ctx.call(fn, ra, rb) + (O.lookup(a, b)[2],)
        ctx.check(len(out) == 3, "timestamps", "arity")
    else:
        pose = ctx.rng.random() < 0.5
        f = rbm.lookup_pose if pose else rbm.lookup_transform
        ds = ctx.call(f, ra, rb, as_dataset=True)
        nt, nr = (("position", "orientation") if pose
                  else ("translation", "rotation"))
        ts = ds["time"].values if "time" in ds.coords else None
        ctx.events["monitor:dataset-time"] += 1
        if ts is not None:
            ctx.check(ds[nt].dims == ("time", "cartesian_axis"),
                      "dataset-dims", got=ds[nt].dims)
            ctx.check(ds[nr].dims == ("time", "quaternion_axis"),
                      "dataset-dims", got=ds[nr].dims)
        out = (ds[nt].values, ds[nr].values, ts)
    return form, out


def classify(ctx, clock, a, b, form, ts):
    up, down = O.path(a, b)
    mu = [f for f in up if f.kind == "moving"]
    md = [f for f in down if f.kind == "moving"]
    if not mu and not md:
        return
    first = (mu + md)[0]
    if len(ts) < len(first.ts):
        ctx.events["grid:clipped"] += 1
    if len(ts) == 0:
        ctx.events["grid:empty"] += 1
    for f in (mu + md)[1:]:
        if len(ts) and not np.all(np.isin(ts, f.ts)):
            ctx.events["grid:interpolated"] += 1
        if len(ts) and (f.ts[0] in ts or f.ts[-1] in ts):
            ctx.events["grid:boundary"] += 1
    ctx.nontrivial(clock.kind, len(mu), len(md), bool(mu), min(len(ts), 12),
                   form, len(up), len(down))


@prop.scenario(4)
def trees(ctx):
    rng = ctx.rng
    win = [(0.0, 6.0), (1.0, 5.0), (2.5, 9.0)][rng.integers(3)]
    frames, clock, shape = G.tree(
        ctx, rbm, n=int(rng.integers(2, 9)),
        kinds=("static", "moving", "moving"), window=win)
    ctx.describe(clock=clock.kind, frames=[
        (f.name, f.parent and f.parent.name, f.kind, f.inverse)
        for f in frames])
    for _ in range(5):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        form, out = do_lookup(ctx, a, b)
        _, _, ts = verify_lookup(ctx, a, b, out)
        classify(ctx, clock, a, b, form, ts)


@prop.scenario(2)
def windows(ctx):
    """Two or three moving frames with adversarial relative ranges: nested,
    touching in one instant, sharing end points, disjoint."""
    rng = ctx.rng
    clock = G.Clock(rng)
    r = G.root(ctx, rbm)
    sib = rng.random() < 0.5
    rel = rng.choice(["nested", "touch", "shared", "disjoint", "equal",
                      "subset", "onlyends"])
    n1 = int(rng.integers(3, 10))
    base = clock.at(np.arange(60) * 0.128)
    i0 = int(rng.integers(12, 20))
    g1 = np.sort(rng.choice(np.arange(i0, i0 + 20), n1, replace=False))
    if rel == "nested":
        g2 = np.arange(g1[0] - 3, g1[-1] + 5, 2)
    elif rel == "touch":
        g2 = np.arange(g1[-1], g1[-1] + 8, 3)
    elif rel == "shared":
        g2 = np.unique(np.concatenate([[g1[0]], np.arange(g1[0] + 1, g1[-1], 3),
                                       [g1[-1]]]))
    elif rel == "disjoint":
        g2 = np.arange(g1[-1] + 1, g1[-1] + 9, 2)
    elif rel == "equal":
        g2 = g1.copy()
    elif rel == "subset":
        g2 = g1[:: 2] if len(g1) > 3 else g1
    else:
        g2 = np.array([g1[0] - 1, g1[-1] + 1])
    if len(g2) < 2:
        g2 = np.array([g2[0], g2[0] + 3])
    if rng.random() < 0.5:
        g1, g2 = g2, g1

    def mk(parent, g):
        n = len(g)
        ts = base[g]
        t, q = G.vec(rng, n, 2.0), G.walk_quat(rng, n)
        inv = bool(rng.random() < 0.4)
        obj = ctx.call(rbm.ReferenceFrame, G.fresh_name("w"), parent=parent.obj,
                       translation=t, rotation=q, timestamps=ts, inverse=inv)
        te, qe = G.invert(t, q) if inv else (t, q)
        m = O.Frame(obj.name, parent, te, qe, ts, False, obj)
        m.reg, m.inverse = False, inv
        return m

    p = r
    if rng.random() < 0.5:
        p = G.add_frame(ctx, rbm, r, clock, "static")
    f1 = mk(p, g1)
    q_ = r if sib else f1
    if rng.random() < 0.5:
        q_ = G.add_frame(ctx, rbm, q_, clock, "static")
    f2 = mk(q_, g2)
    ctx.describe(rel=rel, clock=clock.kind, g1=g1, g2=g2, siblings=sib)
    for a, b in ((f1, f2), (f2, f1), (f2, r), (r, f2)):
        form, out = do_lookup(ctx, a, b)
        _, _, ts = verify_lookup(ctx, a, b, out)
        classify(ctx, clock, a, b, form, ts)
        ctx.nontrivial("rel", rel, sib, len(ts) == 0, len(ts) == 1)


@prop.scenario(1)
def long_series(ctx):
    """Longer, mixed-rate series and exact reproduction of given samples."""
    rng = ctx.rng
    clock = G.Clock(rng)
    r = G.root(ctx, rbm)
    f1 = G.add_frame(ctx, rbm, r, clock, "moving", nmin=40, nmax=120,
                     window=(0, 30), dressed=False)
    f2 = G.add_frame(ctx, rbm, f1, clock, "moving", nmin=10, nmax=200,
                     window=(2, 32), dressed=False)
    for a, b in ((f2, r), (r, f2), (f1, r)):
        form, out = do_lookup(ctx, a, b)
        _, _, ts = verify_lookup(ctx, a, b, out)
        classify(ctx, clock, a, b, form, ts)
    # given samples are reproduced
    t, q, ts = ctx.call(f1.obj.lookup_transform, r.obj)
    ctx.close(t, f1.t, "samples", 1e-9)
    ctx.close(O.q2R(np.asarray(q)), O.q2R(f1.q), "samples", 1e-9)


@prop.scenario(1)
def sign_invariance(ctx):
    """q and -q streams describe the same motion."""
    rng = ctx.rng
    clock = G.Clock(rng)
    n = int(rng.integers(4, 15))
    q = G.walk_quat(rng, n, flips=False)
    t = G.vec(rng, n, 2.0)
    ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
    g = clock.make(0.0 + 0.02, G.grid_steps(rng, 12, clock))
    outs = []
    for k in range(3):
        s = np.ones(n) if k == 0 else np.where(rng.random(n) < 0.5, -1, 1)
        r = rbm.ReferenceFrame("r")
        a = rbm.ReferenceFrame("a", parent=r, translation=t,
                               rotation=q * s[:, None], timestamps=ts)
        b = rbm.ReferenceFrame("b", parent=a, translation=np.zeros((13, 3)),
                               timestamps=g)
        outs.append(ctx.call(b.lookup_transform, r))
    for o in outs[1:]:
        ctx.close(o[2], outs[0][2], "timestamps")
        ctx.close(o[0], outs[0][0], "translation", 1e-9)
        ctx.close(O.q2R(np.asarray(o[1])), O.q2R(np.asarray(outs[0][1])),
                  "rotation", 1e-8)
    ctx.nontrivial("sign", n, clock.kind, len(outs[0][2]))


@prop.scenario(1)
def epoch_ns(ctx):
    """Arbitrary ns timestamps and mixed datetime resolutions."""
    rng = ctx.rng
    t0 = np.datetime64("2021-03-01T12:00:00.123456789", "ns")
    n, m = int(rng.integers(3, 12)), int(rng.integers(3, 12))

    def grid(k):
        st = (rng.uniform(0.05, 0.3, k) * 1e9).astype(np.int64)
        return t0 + np.cumsum(st).astype("timedelta64[ns]")

    g1, g2 = grid(n), grid(m)
    if rng.random() < 0.4:
        u = rng.choice(["us", "ms"])
        g2 = g2.astype(f"datetime64[{u}]")
    r = G.root(ctx, rbm)
    fs = [r]
    for p, g in ((r, g1), (None, g2)):
        k = len(g)
        t, q = G.vec(rng, k, 1.0), G.walk_quat(rng, k)
        par = p or fs[-1]
        o = ctx.call(rbm.ReferenceFrame, G.fresh_name("e"), parent=par.obj,
                     translation=t, rotation=q, timestamps=g)
        f = O.Frame(o.name, par, t, q, g.astype("datetime64[ns]"), False, o)
        f.reg, f.inverse = False, False
        fs.append(f)
    a, b = (fs[2], r) if rng.random() < 0.5 else (r, fs[2])
    out = ctx.call(a.obj.lookup_transform, b.obj)
    # float64 holds epoch ns to 256 ns: relative grid error 256e-9 / 0.05
    _, _, ts = verify_lookup(ctx, a, b, out, tol=1e-4)
    ctx.nontrivial("epoch", str(g2.dtype), len(ts))


@prop.scenario(1)
def fine_range(ctx):
    """Samples some nanoseconds inside or outside of the common range."""
    rng = ctx.rng
    t0 = np.datetime64(str(rng.choice(
        ["2021-03-01T12:00:00", "1969-12-31T23:59:59", "2100-01-01"])), "ns")
    t0 = int(t0.astype(np.int64)) + int(rng.integers(10**9))
    n = int(rng.integers(3, 9))
    g2 = t0 + np.cumsum(rng.integers(10**7, 10**9, n))
    if rng.random() < 0.5:  # timestamps that floats represent
        g2 = g2 // 4096 * 4096
    g1 = rng.integers(g2[0] - 10**8, g2[-1] + 10**8, int(rng.integers(2, 9)))
    g1 = g1[(np.abs(g1 - g2[0]) > 10**5) & (np.abs(g1 - g2[-1]) > 10**5)]
    near = [g2[i] + int(rng.choice([-1, 1])) * int(10 ** rng.uniform(0, 2.7))
            if rng.random() < 0.8 else g2[i] for i in (0, -1)]
    g1 = np.unique(np.concatenate([g1, near]))
    g1 = np.concatenate([g1[:1], g1[1:][np.diff(g1) > 10**5]])
    cast = "datetime64[ns]" if rng.random() < 0.75 else "int64"
    g1, g2 = g1.astype(cast), g2.astype(cast)
    if len(g1) < 2:
        return
    r = G.root(ctx, rbm)

    def frame(p, g):
        t, q = G.vec(rng, len(g), 1.0), G.walk_quat(rng, len(g))
        o = ctx.call(rbm.ReferenceFrame, G.fresh_name("e"), parent=p.obj,
                     translation=t, rotation=q, timestamps=g)
        f = O.Frame(o.name, p, t, q, g, False, o)
        f.reg, f.inverse = False, False
        return f

    f2 = frame(r, g2)
    mode = int(rng.integers(3))
    keep = g1[(g1 >= g2[0]) & (g1 <= g2[-1])]
    if mode == 2:
        arr = G.vec(rng, len(g1), 1.0)
        got, gts = ctx.call(
            rbm.transform_points, arr, into=r.obj, outof=f2.obj,
            timestamps=g1, return_timestamps=True)
        t, R, _ = O.lookup(f2, r, g1)
        x = arr[(g1 >= g2[0]) & (g1 <= g2[-1])]
        ctx.close(got, O.apply_R(R, x) + t, "translation", 1e-3)
    else:
        f1 = frame(f2 if mode else r, g1)
        a, b = (f1, r) if mode else (f1, f2)
        out = ctx.call(a.obj.lookup_transform, b.obj)
        gts = out[2]
        verify_lookup(ctx, a, b, out, tol=1e-3)
    ctx.check(np.array_equal(O.tsi(gts), O.tsi(keep)), "timestamps",
              "not exact", got=gts, want=keep)
    ctx.events["grid:fine"] += 1
    ctx.nontrivial("fine", mode, cast, len(keep), len(g1) - len(keep),
                   bool(near[0] >= O.tsi(g2)[0]), bool(near[1] <= O.tsi(g2)[-1]))

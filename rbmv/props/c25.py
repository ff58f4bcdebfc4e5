"""C25: missing samples (NaN) stay local and are never replaced by numbers."""
import numpy as np
import quaternion as nq
import xarray as xr
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, motion as M, oracle as O
from ..core import Prop

prop = Prop(
    "C25",
    "missing samples",
    "random trees and arrays of which some samples are NaN (whole sample or "
    "one component; single, adjacent, first, last) in frame translations, "
    "frame rotations, timed and untimed arrays, and arguments of the "
    "element-wise functions. Every result element has to be NaN, which is "
    "allowed only where a missing sample is needed, or the value the "
    "independent model yields for the complete data; strictly between the "
    "neighbours of a missing sample it has to be NaN. Non-trivial: both kinds "
    "of element occurred; signature = (API form, where NaN, path kinds, same "
    "grid, position of the gap).",
    quick=7000, thorough=120000,
    assumptions=["the neighbourhood in which NaN is accepted is one sample for "
                 "linear and two samples for rotation interpolation"],
)
prop.require("monitor:lookup-local", "monitor:lookup-missing",
             "monitor:array-local", "monitor:array-missing",
             "monitor:velocity-local", "monitor:velocity-missing",
             "monitor:elementwise-local", "monitor:elementwise-missing",
             "monitor:angular-local", "monitor:angular-missing",
             "monitor:qinterp-local", "monitor:rotvec-local",
             "nan:translation", "nan:rotation", "nan:discrete",
             "nan:same-grid", "nan:resampled", "nan:finite-after",
             "monitor:velocity-array-local")


def gaps(rng, n):
    """Rows that are missing (at least one)."""
    m = rng.integers(6)
    if m == 0:
        return [0]
    if m == 1:
        return [n - 1]
    if m == 2 and n > 3:
        k = int(rng.integers(n - 1))
        return [k, k + 1]
    k = rng.choice(n, 1 + int(n > 8 and rng.random() < 0.3), replace=False)
    return sorted(int(i) for i in k)


def punch(rng, a, rows):
    """Copy with missing rows; sometimes only one component is missing."""
    a = np.array(a, float)
    for k in rows:
        if rng.random() < 0.3:
            a[k, ..., rng.integers(a.shape[-1])] = np.nan
        else:
            a[k] = np.nan
    return a


def near(own, ts, miss, reach):
    """(must, may): output rows that need / may need a missing input row.

    own, ts: float times; miss: bool per input row.
    """
    must = np.zeros(len(ts), bool)
    may = np.zeros(len(ts), bool)
    n = len(own)
    for k in np.flatnonzero(miss):
        lo = own[k - 1] if k else -np.inf
        hi = own[k + 1] if k < n - 1 else np.inf
        must |= (ts > lo) & (ts < hi)
        lo = own[k - reach] if k >= reach else -np.inf
        hi = own[k + reach] if k < n - reach else np.inf
        may |= (ts >= lo) & (ts <= hi)
    return must, may


def held(own, ts, miss):
    idx = np.clip(np.searchsorted(own, ts, side="right") - 1, 0, None)
    return miss[idx], miss[idx]


def masks(f, ts):
    """Rows of ts affected by missing samples of model frame f:
    (t_must, t_may, q_must, q_may)."""
    z = np.zeros(len(ts), bool)
    if f.ts is None or not hasattr(f, "mt"):
        return z, z, z, z
    own, want = O.tsf(f.ts), O.tsf(ts)
    if f.discrete:
        return held(own, want, f.mt) + held(own, want, f.mq)
    if len(own) == len(want) and np.all(own == want):
        return f.mt, f.mt, f.mq, f.mq
    return near(own, want, f.mt, 1) + near(own, want, f.mq, 2)


def path_masks(a, b, ts):
    tm, ty, qm, qy = (np.zeros(len(ts), bool) for _ in range(4))
    for f in sum(O.path(a, b), []):
        m = masks(f, ts)
        tm, ty, qm, qy = tm | m[0], ty | m[1], qm | m[2], qy | m[3]
    return tm, ty | qy, qm, qy


def judge(ctx, got, want, must, may, what, tol, scale=1.0, **details):
    """Element-wise verdict; ``must``/``may`` broadcast over all but the
    last axis (one sample = one vector)."""
    got = np.asarray(got, float)
    ctx.check(got.shape == want.shape, what + "-local",
              f"shape {got.shape} != {want.shape}", **details)
    must = np.broadcast_to(must, got.shape[:-1])
    may = np.broadcast_to(may, got.shape[:-1])
    nan = np.isnan(got)
    bad = nan.any(-1) & ~may
    ctx.check(not bad.any(), what + "-local",
              f"{what}: NaN although no missing sample is involved, at "
              f"{np.argwhere(bad)[:3].tolist()}", got=got, want=want, may=may,
              **details)
    with np.errstate(all="ignore"):
        err = np.abs(got - want) / (scale + np.abs(want))
    err[nan] = 0.0
    bad = (err > tol).any(-1)
    ctx.check(not bad.any(), what + "-local",
              f"{what}: wrong finite values (error {err.max(initial=0):.3g}) "
              f"at {np.argwhere(bad)[:3].tolist()}", got=got, want=want,
              may=may, **details)
    bad = must & ~nan.any(-1)
    ctx.check(not bad.any(), what + "-missing",
              f"{what}: numbers made up for missing samples at "
              f"{np.argwhere(bad)[:3].tolist()}", got=got, must=must,
              **details)
    if must.any() and (~may).any():
        ctx.events["nan:mixed"] += 1
    if got.size and nan.any():
        row = nan.reshape(len(got), -1).any(-1)
        k = np.flatnonzero(row)
        if k[0] < len(row) - 1 and not row[k[-1] + 1:].all():
            ctx.events["nan:finite-after"] += 1
    return bool(must.any() and (~may).any())


def rot_judge(ctx, got, R, must, may, what, tol, **details):
    """Quaternions against rotation matrices."""
    got = np.asarray(got, float)
    ctx.check(got.shape == R.shape[:-2] + (4,), what + "-local",
              f"shape {got.shape}", **details)
    may = np.broadcast_to(may, got.shape[:-1])
    nan = np.isnan(got).any(-1)
    with np.errstate(all="ignore"):
        m = O.q2R(got)
    m = np.where(nan[..., None, None], np.nan, m).reshape(R.shape[:-2] + (9,))
    n = np.linalg.norm(got, axis=-1)
    ctx.check(np.all(np.abs(n[~nan] - 1) < 1e-6), what + "-local",
              "not a unit quaternion", got=got, **details)
    return judge(ctx, m, R.reshape(m.shape), must, may, what, tol, **details)


def world(ctx, n, kinds, dirty, clock=None, same=False):
    """Tree with missing samples in ``dirty`` of its moving frames."""
    rng = ctx.rng
    clock = clock or G.Clock(rng)
    frames = [G.root(ctx, rbm)]
    grid = None
    left = dirty
    for i in range(n):
        p = frames[rng.integers(len(frames))]
        kind = str(rng.choice(kinds))
        if kind == "static":
            frames.append(G.add_frame(ctx, rbm, p, clock, kind))
            continue
        k = int(rng.integers(5, 16))
        ts = clock.make(rng.uniform(0, 1.0), G.grid_steps(rng, k - 1, clock))
        if kind == "moving" and same:
            grid = ts if grid is None else grid
            ts = grid
            k = len(ts)
        t, q = G.vec(rng, k, 1.0), G.walk_quat(rng, k)
        inverse = bool(rng.random() < 0.3)
        td, qd = t.copy(), q.copy()
        if left and (rng.random() < 0.6 or i >= n - left):
            left -= 1
            m = rng.integers(3)
            if m != 1:
                td = punch(rng, t, gaps(rng, k))
                ctx.events["nan:translation"] += 1
            if m != 0:
                qd = punch(rng, q, gaps(rng, k))
                ctx.events["nan:rotation"] += 1
            if kind == "discrete":
                ctx.events["nan:discrete"] += 1
        name = G.fresh_name("g")
        obj = ctx.call(rbm.ReferenceFrame, name, parent=p.obj, translation=td,
                       rotation=qd, timestamps=ts, inverse=inverse,
                       discrete=kind == "discrete")
        mt, mq = np.isnan(td).any(-1), np.isnan(qd).any(-1)
        if inverse:
            t, q = G.invert(t, q)
            mt = mt | mq
        f = O.Frame(name, p, t, q, ts, kind == "discrete", obj)
        f.mt, f.mq = mt, mq
        f.reg = bool(rng.random() < 0.4)
        if f.reg:
            ctx.call(obj.register)
        frames.append(f)
    return frames, clock


def pick2(rng, frames):
    dirty = [f for f in frames if hasattr(f, "mt") and (f.mt | f.mq).any()]
    a = dirty[rng.integers(len(dirty))] if dirty and rng.random() < 0.8 else \
        frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    return (a, b) if rng.random() < 0.5 else (b, a)


KINDS = [("moving",), ("static", "moving"), ("static", "moving", "discrete"),
         ("discrete",)]


@prop.scenario(3)
def lookups(ctx):
    rng = ctx.rng
    frames, clock = world(ctx, int(rng.integers(1, 6)),
                          KINDS[rng.integers(4)], 1 + int(rng.random() < 0.3),
                          same=rng.random() < 0.5)
    for _ in range(4):
        a, b = pick2(rng, frames)
        t, R, ts = O.lookup(a, b)
        if ts is None or len(ts) == 0:
            continue
        tm, ty, qm, qy = path_masks(a, b, ts)
        m = rng.integers(4)
        if m == 0:
            got = ctx.call(rbm.lookup_transform, G.ref(ctx, a), G.ref(ctx, b),
                           return_timestamps=True)
        elif m == 1:
            got = ctx.call(a.obj.lookup_transform, G.ref(ctx, b))
        elif m == 2:  # pose of b's origin ... of frame a represented in b
            got = ctx.call(rbm.lookup_pose, G.ref(ctx, a), G.ref(ctx, b),
                           return_timestamps=True)
        else:
            ds = ctx.call(rbm.lookup_transform, G.ref(ctx, a), G.ref(ctx, b),
                          as_dataset=True)
            got = ds.translation.values, ds.rotation.values, ds.time.values
        ctx.close(got[2], ts, "timestamps")
        kw = dict(a=a.name, b=b.name, form=int(m))
        sc = A.scale_of(a, b, np.zeros(3))
        n1 = judge(ctx, got[0], t, tm, ty, "lookup", 2e-7, sc, **kw)
        n2 = rot_judge(ctx, got[1], R, qm, qy, "lookup", 1e-6, **kw)
        up = sum(O.path(a, b), [])
        same = all(f.kind != "moving" or (len(f.ts) == len(ts) and np.all(
            f.ts == ts)) for f in up)
        if tm.any() or qm.any():
            ctx.events["nan:same-grid" if same else "nan:resampled"] += 1
        if n1 or n2:
            ctx.nontrivial("lookup", int(m), n1, n2, same, clock.kind,
                           tuple(sorted({f.kind for f in up})),
                           bool(tm[0] | qm[0]), bool(tm[-1] | qm[-1]))


@prop.scenario(3)
def arrays(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["points", "vectors", "quaternions"]))
    frames, clock = world(ctx, int(rng.integers(1, 5)),
                          (KINDS + [("static",)])[rng.integers(5)],
                          int(rng.random() < 0.4), same=rng.random() < 0.4)
    timed = rng.random() < 0.75
    for _ in range(3):
        a, b = pick2(rng, frames)
        ats = n = None
        if timed:
            ats = A.array_clock(rng, clock, frames)
            n = len(ats)
            if n < 2:
                continue
        elif O.lookup(a, b)[2] is not None:
            continue
        canon, extra = A.canonical(rng, kind, n, dtype="f8")
        if not timed and canon.ndim < 2:
            continue
        # missing samples per column
        flat = np.array(canon, float).reshape(
            (n or 1, -1, canon.shape[-1])) if timed else np.array(
                canon, float).reshape((-1, 1, canon.shape[-1]))
        for _ in range(int(rng.integers(0, 3)) or 1):
            j = int(rng.integers(flat.shape[1]))
            flat[:, j] = punch(rng, flat[:, j], gaps(rng, len(flat)))
        dirty = flat.reshape(canon.shape)
        want, ts = A.expect(kind, a, b, canon, ats)
        if ts is not None and len(ts) == 0:
            continue
        miss = np.isnan(dirty).any(-1)
        if timed:
            cols = miss.reshape(n, -1)
            if len(ts) == n and np.all(ts == ats):
                must = may = cols
            else:
                z = [near(O.tsf(ats), O.tsf(ts), c,
                          2 if kind == "quaternions" else 1) for c in cols.T]
                must, may = (np.stack([x[i] for x in z], 1) for i in (0, 1))
            tm, ty, qm, qy = path_masks(a, b, ts)
            if kind == "points":
                fm, fy = tm | qm, ty | qy
            else:
                fm, fy = qm, qy
            must = (must | fm[:, None]).reshape((len(ts),) + extra)
            may = (may | fy[:, None]).reshape((len(ts),) + extra)
        else:
            must = may = miss
        arr, ax, ta = A.place(rng, dirty, timed)
        nd = arr.ndim
        kw = {}
        if ax != nd - 1 or rng.random() < 0.5:
            kw["axis"] = A.neg(rng, ax, nd)
        if timed:
            kw["timestamps"] = ats
            if ta != 0 or rng.random() < 0.5:
                kw["time_axis"] = A.neg(rng, ta, nd)
        fn = "transform_" + kind
        if timed and rng.random() < 0.3:
            import xarray as xr

            dims = ["d%d" % i for i in range(nd)]
            dims[ax], dims[ta] = "axis", "time"
            da = xr.DataArray(arr, {"time": ats}, dims)
            got = ctx.call(getattr(rbm, fn), da, into=G.ref(ctx, b),
                           outof=G.ref(ctx, a), dim="axis", timestamps="time")
            got = got.values
            form = "dataarray"
        elif rng.random() < 0.5:
            got = ctx.call(getattr(rbm, fn), G.dress(rng, arr),
                           into=G.ref(ctx, b), outof=G.ref(ctx, a), **kw)
            form = "top"
        else:
            got = ctx.call(getattr(a.obj, fn), G.dress(rng, arr),
                           G.ref(ctx, b), **kw)
            form = "method"
        got = np.asarray(got)
        got = np.moveaxis(got, (ta, ax), (0, -1)) if timed else np.moveaxis(
            got, ax, -1)
        det = dict(kind=kind, form=form, a=a.name, b=b.name, axis=ax,
                   time_axis=ta)
        if kind == "quaternions":
            ok = rot_judge(ctx, got, want, must, may, "array", 1e-6, **det)
        else:
            ok = judge(ctx, got, want, must, may, "array", 2e-7,
                       A.scale_of(a, b, canon), **det)
        if ok:
            ctx.nontrivial("array", kind, form, timed, nd, ax, ta, clock.kind,
                           tuple(sorted({f.kind for f in sum(O.path(a, b),
                                                             [])})))


def dilate(m):
    out = m.copy()
    out[1:] |= m[:-1]
    out[:-1] |= m[1:]
    return out


@prop.scenario(2)
def velocities(ctx):
    """Linear velocities use one neighbour on each side."""
    rng = ctx.rng
    frames, clock = world(ctx, int(rng.integers(1, 5)),
                          KINDS[rng.integers(3)], 1, same=rng.random() < 0.6)
    for _ in range(3):
        f, ref = pick2(rng, frames)
        rep = ref if rng.random() < 0.5 else frames[rng.integers(len(frames))]
        t, _, ts = O.lookup(f, ref)
        if ts is None or len(ts) < 3:
            continue
        _, R, ts2 = O.lookup(ref, rep, ts)
        if len(ts2) == 0:
            continue
        s = clock.seconds(ts)
        sel = np.isin(ts, ts2)
        want = O.apply_R(R, O.gradient(t, s)[sel])
        tm, ty, _, _ = path_masks(f, ref, ts)
        # the neighbours of a missing position have no velocity; what the
        # sample itself gets depends on the spacing
        must = np.zeros(len(ts), bool)
        must[1:] |= tm[:-1]
        must[:-1] |= tm[1:]
        may = dilate(ty)
        if len(ts2) != len(ts):
            must = must[sel]
            may = near(O.tsf(ts), O.tsf(ts2), may, 1)[1]
        _, _, qm, qy = path_masks(ref, rep, ts2)
        must, may = must | qm, may | qy
        scale = (1 + np.abs(t).max()) / np.diff(s).min()
        kw = dict(reference=G.ref(ctx, ref), represent_in=G.ref(ctx, rep))
        if rng.random() < 0.5:
            v, vts = ctx.call(rbm.lookup_linear_velocity, G.ref(ctx, f),
                              return_timestamps=True, **kw)
        else:
            v, vts = ctx.call(f.obj.lookup_linear_velocity,
                              return_timestamps=True, **kw)
        ctx.close(vts, ts2, "timestamps")
        if judge(ctx, v, want, must, may, "velocity", 2e-7 * clock.loose,
                 scale, f=f.name, ref=ref.name, rep=rep.name):
            ctx.nontrivial("velocity", ref is rep, clock.kind, tuple(sorted(
                {x.kind for x in sum(O.path(f, ref), [])})), bool(must[0]),
                bool(must[-1]))
    # velocities of arrays: re-representing needs no neighbours
    a, b = pick2(rng, frames)
    ats = A.array_clock(rng, clock, frames)
    if len(ats) < 3:
        return
    canon = G.vec(rng, len(ats), 1.0)
    _, R, ts = O.lookup(a, b, ats)
    if len(ts) == 0:
        return
    dirty = punch(rng, canon, gaps(rng, len(ats)))
    miss = np.isnan(dirty).any(-1)
    if len(ts) == len(ats):
        must = may = miss
        want = O.apply_R(R, canon)
    else:
        must, may = near(O.tsf(ats), O.tsf(ts), miss, 1)
        want = O.apply_R(R, O.lerp(canon, O.tsf(ats), O.tsf(ts)))
    _, _, qm, qy = path_masks(a, b, ts)
    fn = getattr(rbm, str(rng.choice(["transform_linear_velocity",
                                      "transform_angular_velocity"])))
    got = ctx.call(fn, dirty, into=G.ref(ctx, b), outof=G.ref(ctx, a),
                   what="representation_frame", timestamps=ats)
    judge(ctx, got, want, must | qm, may | qy, "velocity-array", 2e-7,
          2.0, a=a.name, b=b.name)


@prop.scenario(2)
def angular(ctx):
    """Angular velocity: missing rotations have none, the rest is unchanged."""
    rng = ctx.rng
    clock = M.fine_clock(rng)
    n = int(rng.integers(120, 200))
    mo = M.Motion(rng)
    r = G.root(ctx, rbm)
    r.motion = None
    ts = M.grid(rng, clock, n, 0.0, 2.0)
    s = M.secs(clock, ts, 0)
    t, q = mo.pos(s), mo.quat(s)
    if rng.random() < 0.4:
        q = q * G.signs(rng, q)
    rows = sorted({int(k) for k in rng.integers(0, n, int(rng.integers(1, 6)))})
    qd = punch(rng, q, rows)
    td = punch(rng, t, gaps(rng, n)) if rng.random() < 0.5 else t
    mq, mt = np.isnan(qd).any(-1), np.isnan(td).any(-1)
    f = ctx.call(rbm.ReferenceFrame, "w", parent=r.obj, translation=td,
                 rotation=qd, timestamps=ts)
    model = O.Frame("w", r, t, q, ts, False, f)
    model.motion = mo
    true = M.ang_vel(model, r, r, s)
    unit = M.time_unit(clock)
    m = rng.integers(3)
    if m == 0:
        w = ctx.call(f.lookup_angular_velocity)
    elif m == 1:
        v, w = ctx.call(f.lookup_twist)
        vt = O.gradient(t, clock.seconds(ts))
        must = np.zeros(n, bool)  # a missing position has two neighbours
        must[1:] |= mt[:-1]
        must[:-1] |= mt[1:]
        judge(ctx, v, vt, must, dilate(mt | mq), "velocity",
              2e-7 * clock.loose,
              (1 + np.abs(t).max()) / np.diff(clock.seconds(ts)).min())
    else:
        w = ctx.call(rbm.estimate_angular_velocity, qd, timestamps=ts)
        _, Rr, _ = O.lookup(model, r)
        w = O.apply_R(Rr, w)
        w[mq] = np.nan if np.isnan(w[mq]).all() else 0.0
    # derivative of a spline through the remaining samples: judged where the
    # motion is well sampled (not within two samples of the ends)
    edge = np.zeros(n, bool)
    edge[[0, 1, 2, -3, -2, -1]] = True
    lim = 0.05 * (1 + np.abs(true).max())
    got = np.asarray(w) / unit
    ctx.check(got.shape == true.shape, "angular-local", f"shape {got.shape}")
    nan = np.isnan(got).any(-1)
    ctx.check(not (nan & ~mq).any(), "angular-local",
              "NaN although the rotation is known", rows=rows,
              nan=np.flatnonzero(nan))
    ctx.check(nan[mq].all(), "angular-missing",
              "made-up angular velocity of a missing rotation", rows=rows)
    err = np.abs(got - true).max(-1)
    err[nan] = 0
    ctx.check(err[~edge].max() <= lim, "angular-local",
              f"error {err[~edge].max():.3g} beside missing samples",
              rows=rows, at=int(np.argmax(np.where(edge, 0, err))))
    # rotation-vector mode: neighbours of the missing sample at most
    if np.abs(O.qlog(O.qmul(O.qconj(q[:1]), O.continuous(q)))).max() < 1.4:
        q0 = O.qmul(O.qconj(q[0]), q)
        d0 = np.where(mq[:, None], np.nan, q0)
        k = dict(timestamps=ts, mode="rotation_vector")
        a = ctx.call(rbm.estimate_angular_velocity, q0, **k)
        b = ctx.call(rbm.estimate_angular_velocity, d0, **k)
        far = ~dilate(mq)
        ctx.close(b[far], a[far], "rotvec-local", 1e-9, rows=rows)
    ctx.nontrivial("angular", int(m), clock.kind, len(rows), 0 in rows,
                   n - 1 in rows)


@prop.scenario(3)
def functions(ctx):
    """Element-wise functions and interpolation of quaternion arrays."""
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    shape = G.shape(rng, nd)
    m = rng.integers(6)

    def holes(a):
        a = np.array(a, float)
        flat = a.reshape(-1, a.shape[-1])
        return punch(rng, flat, gaps(rng, len(flat))).reshape(a.shape)

    def both(fn, dirty, clean, w, **kw):
        """The same call on complete and incomplete arrays."""
        ax = int(rng.integers(nd + 1))
        mv = [np.moveaxis(x, -1, ax) for x in dirty]
        cl = [np.moveaxis(x, -1, ax) for x in clean]
        got = np.moveaxis(np.asarray(ctx.call(fn, *mv, **{
            k: ax for k in kw.pop("axes")}, **kw)), ax, -1)
        want = np.moveaxis(np.asarray(ctx.call(fn, *cl, **{
            k: ax for k in ("axis", "qaxis") if k in w}, **kw)), ax, -1)
        miss = np.zeros(got.shape[:-1], bool)
        for x in dirty:
            miss = miss | np.isnan(x).any(-1)
        gone = np.zeros(got.shape[:-1], bool)
        for x in dirty:
            gone = gone | np.isnan(x).all(-1)
        ctx.check(np.isnan(got[gone]).all(), "elementwise-missing",
                  f"{fn.__name__}: numbers made up for a missing vector",
                  got=got[gone])
        return judge(ctx, got, want, miss, miss, "elementwise", 1e-12,
                     fn=fn.__name__, axis=ax)

    q = G.quat(rng, shape).astype(float)
    v = G.vec(rng, shape)
    if m == 0:
        d = [holes(q), q.copy()][:: rng.choice([-1, 1])]
        p = G.quat(rng, shape)
        c = [q if np.isnan(x).any() else p for x in d]
        d = [x if np.isnan(x).any() else p for x in d]
        ok = both(rbm.qmul, d, c, ("qaxis",), axes=("qaxis",))
    elif m == 1:
        ok = both(rbm.qinv, [holes(q)], [q], ("qaxis",), axes=("qaxis",))
    elif m == 2:
        w = rng.integers(3)
        ok = both(rbm.rotate_vectors, [holes(q) if w != 1 else q,
                                       holes(v) if w != 0 else v], [q, v],
                  ("axis", "qaxis"), axes=("axis", "qaxis"))
    elif m == 3:
        two = rng.random() < 0.4
        x = np.ascontiguousarray(v[..., :2]) if two else v
        name, inv = ("cartesian_to_polar", "polar_to_cartesian") if two else (
            "cartesian_to_spherical", "spherical_to_cartesian")
        if rng.random() < 0.5:
            name = inv
        ok = both(getattr(rbm, name), [holes(x)], [x], ("axis",),
                  axes=("axis",))
    elif m == 4 or m == 5:
        clock = G.Clock(rng)
        n = int(rng.integers(5, 15))
        ti = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
        tf = O.tsf(ti)
        k = int(rng.integers(1, 20))
        mid = clock.make(0.0, G.grid_steps(rng, k, clock))
        to = np.unique(np.concatenate([
            mid[(mid >= ti[0]) & (mid <= ti[-1])],
            ti[rng.random(n) < 0.3]]).astype(ti.dtype))
        if not len(to):
            return
        cols = int(rng.integers(1, 4))
        q = np.stack([G.walk_quat(rng, n) for _ in range(cols)], 1)
        d = q.copy()
        j = int(rng.integers(cols))
        d[:, j] = punch(rng, q[:, j], gaps(rng, n))
        want = O.q2R(O.squad(q, tf, O.tsf(to)))
        z = [near(tf, O.tsf(to), c, 2) for c in np.isnan(d).any(-1).T]
        must, may = (np.stack([x[i] for x in z], 1) for i in (0, 1))
        axis = int(rng.integers(2))
        arr = d if axis == 0 else np.swapaxes(d, 0, 1)
        form = rng.integers(3)
        if cols == 1 and rng.random() < 0.7:  # one track
            arr, axis, want = d[:, 0], 0, want[:, 0]
            must, may = must[:, 0], may[:, 0]
            j = None
        if form == 1:
            got = nq.as_float_array(ctx.call(
                rbm.qinterp, nq.as_quat_array(np.ascontiguousarray(arr)), ti,
                to, axis=axis))
        elif form == 2:
            dims = ["time", "quaternion_axis"]
            if arr.ndim == 3:
                dims.insert(1 - axis, "col")
            da = xr.DataArray(arr, {"time": ti}, dims)
            got = ctx.call(da.rbm.qinterp, time=to).values
        else:
            got = ctx.call(rbm.qinterp, arr, ti, to, axis=axis)
        got = got if axis == 0 else np.swapaxes(got, 0, 1)
        ok = rot_judge(ctx, got, want, must, may, "qinterp", 1e-6, column=j)
        shape = (cols, n, axis)
    if ok:
        ctx.nontrivial("function", int(m), nd, tuple(np.minimum(shape, 3)))

"""C11: velocity transforms obey rigid-body kinematics."""
import numpy as np
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, motion as M, oracle as O
from ..core import Prop

prop = Prop(
    "C11",
    "velocity transforms",
    "trees of analytic smooth motions and static frames, every "
    "source/target/moving/reference frame combination and every `what`; "
    "arbitrary velocity arrays in every layout (own timestamps, shuffled "
    "axes, DataArrays, single vectors) and velocities looked up from the "
    "tree. Monitors compare with the analytic kinematics, with direct "
    "lookups, and exactly (1e-9) with the kinematic formula evaluated from "
    "public lookups. Non-trivial: the transform changes the array; signature "
    "= (quantity, what, API form, path, layout, clock).",
    quick=1800, thorough=40000,
    assumptions=["at least 5 samples, sampled finely compared to the motion"],
)
prop.require("monitor:kinematics-linear-reference_frame",
             "monitor:kinematics-linear-moving_frame",
             "monitor:kinematics-angular-reference_frame",
             "monitor:kinematics-angular-moving_frame",
             "monitor:representation", "monitor:direct-lookup",
             "monitor:static-exact", "monitor:formula", "monitor:layout",
             "monitor:single-vector", "arm:moving", "offset:nonzero",
             "option:cutoff", "monitor:own-clock")

WHAT = ["reference_frame", "moving_frame", "representation_frame"]


def offset(lin, what, a, b, other, s):
    """Analytic velocity to add, in b; and its scale."""
    if what == "representation_frame":
        return np.zeros((len(s), 3))
    if what == "reference_frame":
        w = M.ang_vel(a, b, b, s)
        if not lin:
            return w
        r = O.apply_R(M.rel(a, b, s)[1], M.rel(other, a, s)[0])
        return M.lin_vel(a, b, b, s) + np.cross(w, r)
    if not lin:
        return M.ang_vel(b, a, b, s)
    w = M.ang_vel(a, other, b, s)
    r = O.apply_R(M.rel(a, b, s)[1], M.rel(b, a, s)[0])
    return M.lin_vel(b, a, b, s) + np.cross(w, r)


def expand(x, nd):
    return x.reshape((len(x),) + (1,) * (nd - 2) + (3,))


def near(ctx, got, want, mech, scale, inner=0.012, end=0.06, k=4, **d):
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, mech, f"shape {got.shape}",
              want=want.shape, **d)
    e = np.abs(got - want) / scale
    ctx.check(np.all(np.isfinite(got)), mech, "not finite", **d)
    n = len(e)
    mid = e[k:n - k].max(initial=0)
    ctx.check(mid <= inner and e.max(initial=0) <= end, mech,
              f"{mech}: off by {mid:.3g} (interior), {e.max(initial=0):.3g} "
              "(ends), relative", got=got[n // 2], want=want[n // 2], **d)


def magnitude(lin, what, a, b, other, s):
    """Scale against which discretisation errors are judged."""
    fr = {id(f): f for f in a.ancestors() + b.ancestors() + (
        other.ancestors() if other is not None else [])}.values()
    m = 1.0
    for f in fr:
        if f.parent is None:
            continue
        m = max(m, np.abs(M._d(f.motion.pos, s)).max(),
                np.abs(M._d(lambda u: O.q2R(f.motion.quat(u)), s)).max())
    off = np.abs(offset(lin, what, a, b, other, s)).max()
    arm = 1.0 + np.abs(M.rel(a, b, s)[0]).max()
    if other is not None:
        arm += np.abs(M.rel(other, a, s)[0]).max()
    return max(1.0, off, m * arm if lin else m)


def pick(ctx, frames):
    rng = ctx.rng
    return frames[rng.integers(len(frames))]


def call(ctx, lin, what, arr, a, b, other, top, kw):
    """transform_*_velocity through one of the API forms."""
    kw = dict(kw)
    if lin and other is not None:
        k = {"reference_frame": "moving_frame",
             "moving_frame": "reference_frame"}.get(what)
        if k:
            kw[k] = G.ref(ctx, other)
    name = f"transform_{'linear' if lin else 'angular'}_velocity"
    if what != "reference_frame" or ctx.rng.random() < 0.5:
        kw["what"] = what
    if top:
        return ctx.call(getattr(rbm, name), arr, G.ref(ctx, b),
                        outof=G.ref(ctx, a), **kw)
    return ctx.call(getattr(a.obj, name), arr, G.ref(ctx, b), **kw)


@prop.scenario(4)
def arbitrary(ctx):
    """Arbitrary velocity arrays; the transform adds the analytic offset."""
    rng = ctx.rng
    clock = M.fine_clock(rng)
    same = rng.random() < 0.4
    frames, common = M.tree(ctx, rbm, int(rng.integers(2, 5)), clock, 141,
                            same_grid=same)
    unit = M.time_unit(clock)
    for _ in range(3):
        a, b, c = (pick(ctx, frames) for _ in range(3))
        lin = bool(rng.random() < 0.65)
        what = str(rng.choice(WHAT, p=[0.45, 0.45, 0.1]))
        # the array's own time base inside (or partly outside) the range
        m = rng.integers(4)
        if m == 0:
            ats = common
        elif m == 3:
            ats = clock.twin(common, 0.45)
        else:
            lo, hi = ((0.1, 1.9) if m == 1 else (-0.6, 1.5))
            ats = M.grid(rng, clock, int(rng.integers(60, 140)), lo, hi)
        n = len(ats)
        canon, extra = A.canonical(
            rng, "vectors", n, tuple(rng.integers(1, 4, rng.integers(3))),
            "f8")
        canon = canon / (1e-9 + np.abs(canon).max())
        s0 = M.secs(clock, ats, 0)
        R = M.rel(a, b, s0)[1]
        off = offset(lin, what, a, b, c, s0)
        nd = canon.ndim
        full = np.einsum("...ij,...j->...i",
                         R.reshape((n,) + (1,) * (nd - 2) + (3, 3)),
                         canon) + expand(off, nd)
        arr, ax, ta = A.place(rng, canon, True)
        top = rng.random() < 0.5
        kw = {}
        scale = magnitude(lin, what, a, b, c, s0) * unit
        data = rng.random() < 0.3 and top
        if data:
            import xarray as xr

            dims = ["d%d" % i for i in range(nd)]
            dims[ax], dims[ta] = "cartesian_axis", "time"
            da = xr.DataArray(arr * unit, {"time": ats}, dims, "v", {"k": 1})
            if ax != nd - 1 or rng.random() < 0.5:
                kw["dim"] = "cartesian_axis"
            if ta != 0 or rng.random() < 0.5:
                kw["timestamps"] = "time"
            res = call(ctx, lin, what, da, a, b, c, top, kw)
            ctx.check(res.dims == da.dims, "layout", got=res.dims)
            got, ts = res.values, res.time.values
        else:
            kw = {"timestamps": ats, "return_timestamps": True}
            if ax != nd - 1 or rng.random() < 0.5:
                kw["axis"] = A.neg(rng, ax, nd)
            if ta != 0 or rng.random() < 0.5:
                kw["time_axis"] = A.neg(rng, ta, nd)
            got, ts = call(ctx, lin, what, G.dress(rng, arr * unit), a, b, c,
                           top, kw)
        ts = np.asarray(ts)
        keep = np.isin(ats, ts)
        ctx.check(keep.sum() == len(ts) and len(ts) > 10, "layout",
                  "timestamps are not those of the array",
                  frames=(a.name, b.name), n=n, got=len(ts))
        sl = M.secs(clock, ats, 0)
        # (velocities end at their own first/last sample of the range)
        inside = (sl >= 0.08) & (sl <= 1.92)
        ctx.check(np.all(keep[inside]), "layout",
                  "samples inside the common range were dropped", what=what)
        got = np.moveaxis(np.asarray(got), (ta, ax), (0, -1))
        mech = ("representation" if what == "representation_frame" else
                f"kinematics-{'linear' if lin else 'angular'}-{what}")
        if what == "representation_frame":
            ctx.close(got / unit, full[keep], mech, 2e-3)
        near(ctx, got, full[keep] * unit, mech, scale, a=a.name, b=b.name,
             c=c.name, axis=ax, time_axis=ta)
        ctx.events["monitor:layout"] += 1
        if np.abs(off).max() > 0.3:
            ctx.events["offset:nonzero"] += 1
        if lin and c.ts is not None:
            ctx.events["arm:moving"] += 1
        up, down = O.path(a, b)
        ctx.nontrivial(lin, what, top, data, len(up), len(down), ax, ta, nd,
                       clock.kind, m)


@prop.scenario(3)
def lookups(ctx):
    """Transforming a looked-up velocity agrees with the direct lookup."""
    rng = ctx.rng
    clock = M.fine_clock(rng)
    frames, _ = M.tree(ctx, rbm, int(rng.integers(2, 5)), clock, 141,
                       same_grid=rng.random() < 0.5)
    unit = M.time_unit(clock)
    for _ in range(3):
        lin = bool(rng.random() < 0.65)
        what = str(rng.choice(WHAT, p=[0.45, 0.45, 0.1]))
        f, a, b = (pick(ctx, frames) for _ in range(3))
        # velocity of f wrt a represented in a / of a wrt f represented in a
        if what == "moving_frame":
            src, ref, other, nsrc, nref = a, f, f, b, f
        elif what == "reference_frame":
            src, ref, other, nsrc, nref = f, a, f, f, b
        else:
            src, ref, other, nsrc, nref = f, a, None, f, a
        fn = (rbm.lookup_linear_velocity if lin
              else rbm.lookup_angular_velocity)
        if O.lookup(src, ref)[2] is None:
            continue
        as_da = rng.random() < 0.5
        if as_da:
            v = ctx.call(fn, G.ref(ctx, src), G.ref(ctx, ref), G.ref(ctx, a),
                         as_dataarray=True)
            kw = {}
        else:
            v, vts = ctx.call(fn, G.ref(ctx, src), G.ref(ctx, ref),
                              G.ref(ctx, a), return_timestamps=True)
            kw = {"timestamps": vts, "return_timestamps": True}
        out = call(ctx, lin, what, v, a, b, other, True, kw)
        if as_da:
            got, ts = out.values, out.time.values
            ctx.check(out.attrs["representation_frame"] == b.name
                      and out.attrs[what] == b.name, "direct-lookup",
                      got=out.attrs)
        else:
            got, ts = out
        s = M.secs(clock, ts, 0)
        fun = M.lin_vel if lin else M.ang_vel
        want = fun(nsrc, nref, b, s) * unit
        scale = magnitude(lin, what, a, b, other, s) + np.abs(want).max() / unit
        near(ctx, got, want, "direct-lookup", scale * unit, 0.015, 0.09,
             what=what, src=src.name, ref=ref.name, to=b.name)
        # the library's own direct lookup
        if O.lookup(nsrc, nref)[2] is not None:
            d, dts = ctx.call(fn, G.ref(ctx, nsrc), G.ref(ctx, nref),
                              G.ref(ctx, b), return_timestamps=True)
            i, j = np.isin(ts, dts), np.isin(dts, ts)
            if i.sum() > 20:
                near(ctx, np.asarray(got)[i], np.asarray(d)[j],
                     "direct-lookup", scale * unit, 0.02, 0.15, what=what)
        up, down = O.path(a, b)
        ctx.nontrivial("lookup", lin, what, as_da, len(up), len(down),
                       clock.kind)


def own_clock(ctx, clock, ts, query, opts, parts):
    """An array with other timestamps: velocities are interpolated to them."""
    rng = ctx.rng
    lin, what, a, b, c = query
    m = rng.integers(3)
    if m == 0:
        ats = clock.twin(ts)
    elif m == 1:
        r = clock.rel(ts)
        ats = np.unique(clock.at(rng.uniform(
            r[0], r[-1], int(rng.integers(3, 20)))))
        ats = ats[(ats >= ts[0]) & (ats <= ts[-1])]
    else:
        ats = np.sort(rng.choice(ts, int(rng.integers(2, len(ts))), False))
    if len(ats) < 2:
        return
    arr = rng.standard_normal((len(ats), 3))
    got, gts = call(ctx, lin, what, arr, a, b, c, bool(rng.random() < 0.5), {
        "timestamps": ats, "return_timestamps": True, **opts})
    ctx.close(gts, ats, "own-clock", message="timestamps")
    want, _ = A.expect("vectors", a, b, arr, ats)
    x, xs = clock.rel(ats), clock.rel(ts)
    v, w, arm = (np.stack([np.interp(x, xs, p[:, j]) for j in range(3)], 1)
                 for p in parts)
    # products may be interpolated or be products of interpolated factors
    k = np.clip(np.searchsorted(xs, x, "right") - 1, 0, len(xs) - 2)
    dw, da = (np.linalg.norm(np.diff(p, axis=0), axis=1)[k]
              for p in parts[1:])
    u = (x - xs[k]) / (xs[k + 1] - xs[k])
    sc = 1 + sum(np.abs(p).max() for p in parts) + (
        np.abs(parts[1]).max() * np.abs(parts[2]).max())
    tol = 1e-7 * sc * clock.loose + 1.01 * dw * da * u * (1 - u)
    err = np.linalg.norm(np.asarray(got) - want - v - np.cross(w, arm), axis=1)
    ctx.check(np.all(err <= tol), "own-clock", "offset is not that of the "
              "frames at the array's timestamps", what=what, lin=lin,
              worst=float((err - tol).max()), kind=int(m))
    ctx.events["own-clock:%d" % m] += 1


@prop.scenario(2)
def exact(ctx):
    """Common coarse grid: the formulas from public lookups hold exactly."""
    rng = ctx.rng
    clock = G.Clock(rng)
    n = int(rng.integers(6, 50))
    ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
    r = G.root(ctx, rbm)
    frames = [r]
    for _ in range(int(rng.integers(2, 6))):
        p = frames[rng.integers(len(frames))]
        mov = rng.random() < 0.5
        t = np.cumsum(G.vec(rng, n, 0.5), 0) if mov else G.vec(rng, (), 1.0)
        q = G.walk_quat(rng, n) if mov else G.quat(rng)
        name = G.fresh_name("e")
        kw = {"timestamps": ts} if mov else {}
        obj = ctx.call(rbm.ReferenceFrame, name, parent=p.obj, translation=t,
                       rotation=q, **kw)
        m = O.Frame(name, p, t, q, ts if mov else None, False, obj)
        m.reg = bool(rng.random() < 0.5)
        if m.reg:
            ctx.call(obj.register)
        frames.append(m)
    s = clock.seconds(ts)
    for _ in range(4):
        a, b, c = (pick(ctx, frames) for _ in range(3))
        lin = bool(rng.random() < 0.7)
        what = str(rng.choice(WHAT, p=[0.45, 0.45, 0.1]))

        opts = {}
        if n > 26 and rng.random() < 0.3:
            opts["cutoff"] = float(rng.uniform(0.2, 0.9))
            ctx.events["option:cutoff"] += 1

        def look(kind, f, ref, rep):
            v = ctx.call(getattr(f.obj, f"lookup_{kind}_velocity"),
                         ref.obj, rep.obj, allow_static=True,
                         return_timestamps=True, **opts)[0]
            return np.broadcast_to(np.asarray(v), (n, 3))

        def tr(f, g):
            t, R, lts = O.lookup(f, g)
            return (np.broadcast_to(t, (n, 3)),
                    np.broadcast_to(R, (n, 3, 3)))

        _, R = tr(a, b)
        zero = np.zeros((n, 3))
        v, w, arm = zero, zero, zero  # the offset is v + w x arm
        if what == "reference_frame" and lin:
            v, w = look("linear", a, b, b), look("angular", a, b, b)
            arm = O.apply_R(R, tr(c, a)[0])
        elif what == "reference_frame":
            v = look("angular", a, b, b)
        elif what == "moving_frame" and lin:
            v, w = look("linear", b, a, b), look("angular", a, c, b)
            arm = O.apply_R(R, tr(b, a)[0])
        elif what == "moving_frame":
            v = look("angular", b, a, b)
        parts = v, w, arm
        off = v + np.cross(w, arm)
        ne = tuple(rng.integers(1, 4, rng.integers(3)))
        canon = rng.standard_normal((n,) + ne + (3,))
        nd = canon.ndim
        want = np.einsum("...ij,...j->...i",
                         R.reshape((n,) + (1,) * (nd - 2) + (3, 3)),
                         canon) + expand(off, nd)
        arr, ax, ta = A.place(rng, canon, True)
        got, gts = call(ctx, lin, what, G.dress(rng, arr), a, b, c,
                        rng.random() < 0.5, {
            "timestamps": ts, "return_timestamps": True, **opts,
            "axis": A.neg(rng, ax, nd), "time_axis": A.neg(rng, ta, nd)})
        got = np.moveaxis(np.asarray(got), (ta, ax), (0, -1))
        sc = 1 + np.abs(off).max()
        ctx.close(gts, ts, "formula")
        ctx.close(got / sc, want / sc, "formula", 1e-9, what=what, lin=lin)
        own_clock(ctx, clock, ts, (lin, what, a, b, c), opts, parts)
        path = sum(O.path(a, b), [])
        st = all(f.ts is None for f in path)
        if st and (what != "moving_frame" or not lin):
            # exact: nothing but a rotation
            ctx.close(got, want - expand(off, nd), "static-exact", 1e-9)
        # single vectors
        v = rng.standard_normal(3)
        out = call(ctx, lin, what, G.dress(rng, v), a, b, c,
                   rng.random() < 0.5, {"return_timestamps": True, **opts})
        moving = any(f.ts is not None for f in path)
        if not moving and lin and what == "moving_frame":
            moving = any(f.ts is not None for f in sum(O.path(a, c), []))
        elif not moving and lin and what == "reference_frame":
            moving = any(f.ts is not None for f in sum(O.path(c, a), []))
        w1 = O.apply_R(R, v) + off
        if not moving:
            ctx.check(out[1] is None, "single-vector", "timestamps for a "
                      "static transform")
            w1 = w1[0]
        else:
            ctx.close(out[1], ts, "single-vector")
        ctx.close(np.asarray(out[0]) / sc, w1 / sc, "single-vector", 1e-9,
                  what=what, lin=lin)
        ctx.nontrivial("exact", lin, what, st, ax, ta, nd, clock.kind, moving)


@prop.scenario(1)
def static_trees(ctx):
    """All-static trees: arrays of any layout without timestamps."""
    rng = ctx.rng
    frames, _, _ = G.tree(ctx, rbm, n=int(rng.integers(2, 6)))
    for _ in range(3):
        a, b, c = (pick(ctx, frames) for _ in range(3))
        lin = bool(rng.random() < 0.6)
        what = str(rng.choice(WHAT))
        canon, _ = A.canonical(rng, "vectors", None)
        arr, ax, _ = A.place(rng, canon, False)
        R = O.lookup(a, b)[1]
        want = np.moveaxis(O.apply_R(R, canon.astype(float)), -1, ax)
        got = call(ctx, lin, what, G.dress(rng, arr), a, b, c,
                   rng.random() < 0.5,
                   {"axis": A.neg(rng, ax, arr.ndim)})
        sc = 1 + np.abs(canon).max()
        tol = 2e-5 if arr.dtype == np.float32 else 1e-9
        ctx.close(np.asarray(got) / sc, want / sc, "static-exact", tol,
                  what=what, shape=arr.shape, axis=ax)
        ctx.nontrivial("static", lin, what, ax, arr.ndim)

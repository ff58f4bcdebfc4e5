"""C10: angular velocity is that of the rotation in the right frame."""
import numpy as np
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, motion as M, oracle as O
from ..core import Prop

prop = Prop(
    "C10",
    "angular velocity",
    "trees of analytic smooth motions (known true angular velocity) sampled on "
    "regular/irregular common or individual grids with random sign flips and "
    "timestamp types, every frame/reference/representation triple and API "
    "form; raw quaternion arrays in every layout with sign flips and NaN "
    "samples. Monitors compare with the analytic value, check convergence "
    "under refinement and invariances. Non-trivial: rotating motion; "
    "signature = (API form, path, clock, grid kind, defaults, layout).",
    quick=2250, thorough=40000,
    assumptions=["at least 4 samples (cubic spline), sampled finely compared "
                 "to the motion"],
)
prop.require("monitor:true-velocity", "monitor:convergence",
             "monitor:sign-invariance", "monitor:nan-local",
             "monitor:rotation-vector", "monitor:layout",
             "monitor:static-raises", "monitor:static-zero",
             "monitor:constant-zero", "monitor:unit-invariance",
             "default:reference", "default:represent-top",
             "default:represent-method", "monitor:timestamps",
             "monitor:mode-passed")


def compare(ctx, got, true, unit, mech="true-velocity", inner=0.012, end=0.06,
            k=3, **d):
    """True angular velocity up to discretisation error."""
    got, true = np.asarray(got) / unit, true / unit
    ctx.check(got.shape == true.shape, mech, f"shape {got.shape}",
              want=true.shape)
    m = 1 + np.abs(true).max(initial=0)
    e = np.abs(got - true) / m
    ctx.check(np.all(np.isfinite(e)), mech, "not finite", **d)
    n = len(e)
    mid = e[k:n - k].max(initial=0)
    ctx.check(mid <= inner and e.max(initial=0) <= end, mech,
              f"angular velocity off by {mid:.3g} (interior), {e.max():.3g} "
              f"(ends), relative", got=got[n // 2], want=true[n // 2], **d)


@prop.scenario(3)
def lookups(ctx):
    rng = ctx.rng
    clock = M.fine_clock(rng)
    same = rng.random() < 0.5
    frames, _ = M.tree(ctx, rbm, int(rng.integers(1, 5)), clock, 121,
                       same_grid=same)
    unit = M.time_unit(clock)
    for _ in range(4):
        f = frames[rng.integers(len(frames))]
        ref = frames[rng.integers(len(frames))]
        rep = frames[rng.integers(len(frames))]
        kw = {}
        top = rng.random() < 0.5
        if f.parent is not None and rng.random() < 0.3:
            ref = f.parent
            ctx.events["default:reference"] += 1
        else:
            kw["reference"] = G.ref(ctx, ref)
        if rng.random() < 0.35 and (top or f.parent is not None):
            rep = ref if top else f.parent
            ctx.events["default:represent-" + ("top" if top else "method")] += 1
        else:
            kw["represent_in"] = G.ref(ctx, rep)
        ts = O.lookup(f, ref)[2]
        twist = rng.random() < 0.35
        if ts is None:
            name = "lookup_twist" if twist else "lookup_angular_velocity"
            if top:
                ctx.rejects(ValueError, getattr(rbm, name), G.ref(ctx, f), **kw)
            else:
                m = getattr(f.obj, name)
                ctx.rejects(ValueError, m, **kw)
                z = ctx.call(m, allow_static=True, return_timestamps=True, **kw)
                ctx.close(z[-2], np.zeros(3), "static-zero", 0)
                ctx.check(z[-1] is None, "static-zero")
            ctx.events["monitor:static-raises"] += 1
            continue
        if top:
            fn = rbm.lookup_twist if twist else rbm.lookup_angular_velocity
            m = rng.integers(3)
            if m == 0:
                k = "as_dataset" if twist else "as_dataarray"
                da = ctx.call(fn, G.ref(ctx, f), **{k: True}, **kw)
                da = da.angular_velocity if twist else da
                got, gts = da.values, da.time.values
            else:
                out = ctx.call(fn, G.ref(ctx, f), return_timestamps=True, **kw)
                got, gts = out[-2], out[-1]
        else:
            fn = f.obj.lookup_twist if twist else f.obj.lookup_angular_velocity
            out = ctx.call(fn, return_timestamps=True, **kw)
            got, gts = out[-2], out[-1]
        wts = O.lookup(f, rep, ts)[2]
        if twist:
            wts = np.intersect1d(wts, O.lookup(ref, rep, ts)[2])
        ctx.close(gts, wts, "timestamps")
        s = M.secs(clock, gts, 0)
        true = M.ang_vel(f, ref, rep, s) * unit
        compare(ctx, got, true, unit, frame=f.name, ref=ref.name, rep=rep.name)
        ctx.nontrivial("twist" if twist else "angular", top, tuple(sorted(kw)),
                       clock.kind, same, len(O.path(f, ref)[0]),
                       len(O.path(f, ref)[1]), len(sum(O.path(f, rep), [])))


def fine_series(ctx, n, clock=None, lo=0.0, hi=2.0, pure=None):
    rng = ctx.rng
    clock = clock or M.fine_clock(rng)
    mo = M.Motion(rng, pure=pure)
    ts = M.grid(rng, clock, n, lo, hi)
    s = M.secs(clock, ts, 0)
    q = mo.quat(s)
    W = np.swapaxes(O.q2R(q), -1, -2) @ M._d(lambda u: O.q2R(mo.quat(u)), s)
    w = np.stack([W[..., 2, 1], W[..., 0, 2], W[..., 1, 0]], -1)  # body frame
    return clock, mo, ts, s, q, w * M.time_unit(clock)


def flip(rng, q):
    return q * G.signs(rng, q)


@prop.scenario(2)
def estimates(ctx):
    """Body-frame components, layouts, containers, sign flips, NaN."""
    rng = ctx.rng
    clock = M.fine_clock(rng)
    n = G.count(rng, 90, 130)
    k = int(rng.integers(1, 4))
    ts = M.grid(rng, clock, n, 0.0, 2.0 if n < 130 else n / 60)
    s = M.secs(clock, ts, 0)
    unit = M.time_unit(clock)
    mos = [M.Motion(rng) for _ in range(k)]
    q = np.stack([m.quat(s) for m in mos], 1)
    W = np.swapaxes(O.q2R(q), -1, -2) @ np.stack(
        [M._d(lambda u: O.q2R(m.quat(u)), s) for m in mos], 1)
    true = np.stack([W[..., 2, 1], W[..., 0, 2], W[..., 1, 0]], -1) * unit
    single = rng.random() < 0.4
    if single:
        q, true = q[:, 0], true[:, 0]
    elif rng.random() < 0.5:  # more dimensions
        ex = (k, 1) if rng.random() < 0.5 else (1, k)
        q, true = q.reshape((n,) + ex + (4,)), true.reshape((n,) + ex + (3,))
    base = np.asarray(ctx.call(rbm.estimate_angular_velocity, q, timestamps=ts))
    compare(ctx, base.reshape(n, -1, 3), true.reshape(n, -1, 3), unit)
    # quaternion signs
    qf = flip(rng, q)
    got = ctx.call(rbm.estimate_angular_velocity, qf, timestamps=ts)
    ctx.close(np.asarray(got) / unit, base / unit, "sign-invariance", 1e-6)
    # layout
    arr, ax, ta = A.place(rng, qf, True)
    nd = arr.ndim
    opt = {}
    if rng.random() < 0.4:
        opt["mode"] = "rotation_vector"
    if rng.random() < 0.3:
        opt["cutoff"] = float(rng.uniform(0.3, 0.9))
    if opt:
        base = np.asarray(ctx.call(rbm.estimate_angular_velocity, qf,
                                   timestamps=ts, **opt))
    want = np.moveaxis(base, (0, -1), (ta, ax))
    if rng.random() < 0.4:
        import xarray as xr

        dims = ["d%d" % i for i in range(nd)]
        dims[ax], dims[ta] = "quaternion_axis", "time"
        da = xr.DataArray(arr, {"time": ts, "quaternion_axis": list("wxyz"),
                                "lab": ("time", np.arange(n))}, dims, "o",
                          {"u": 1})
        g = ctx.call(rbm.estimate_angular_velocity, da, dim="quaternion_axis",
                     timestamps="time", **opt)
        wd = tuple("cartesian_axis" if d == "quaternion_axis" else d
                   for d in dims)
        ctx.check(g.dims == wd, "layout", got=g.dims, want=wd)
        ctx.check(list(g.cartesian_axis.values) == list("xyz"), "layout")
        ctx.check(g.lab.identical(da.lab), "layout")
        g = g.values
    else:
        g = ctx.call(rbm.estimate_angular_velocity, G.dress(rng, arr),
                     timestamps=ts if clock.kind in G.GRAIN or
                     rng.random() < 0.5 else ts.tolist(),
                     axis=A.neg(rng, ax, nd), time_axis=A.neg(rng, ta, nd),
                     **opt)
    g = np.asarray(g)
    ctx.check(g.shape == want.shape, "layout", f"shape {g.shape}",
              want=want.shape)
    ctx.close(g / unit, want / unit, "layout",
              1e-4 if "cutoff" in opt or clock.loose > 1 else 1e-6,
              axis=ax, time_axis=ta)
    ctx.nontrivial("estimate", nd, ax, ta, clock.kind, single, tuple(opt))
    # missing samples
    if single:
        bad = rng.random(n) < 0.08
        bad[rng.integers(n)] = True
        qn = qf.copy()
        qn[bad, rng.integers(4)] = np.nan
        g = np.asarray(ctx.call(rbm.estimate_angular_velocity, qn,
                                timestamps=ts))
        ctx.check(np.all(np.isnan(g[bad])), "nan-local",
                  "a missing sample produced a velocity")
        compare(ctx, g[~bad], true[~bad], unit, "nan-local", 0.05, 0.15)
        ctx.nontrivial("nan", int(bad.sum()), bool(bad[0] or bad[-1]),
                       clock.kind)


@prop.scenario(1)
def convergence(ctx):
    rng = ctx.rng
    clock = G.Clock(rng, str(rng.choice(["float", "float0", "ns"])))
    mo = M.Motion(rng)
    errs = []
    for n in (31, 61, 121, 241):
        ts = clock.at(np.linspace(0, 2, n))
        s = M.secs(clock, ts, 0)
        W = np.swapaxes(O.q2R(mo.quat(s)), -1, -2) @ M._d(
            lambda u: O.q2R(mo.quat(u)), s)
        w = np.stack([W[..., 2, 1], W[..., 0, 2], W[..., 1, 0]], -1)
        g = ctx.call(rbm.estimate_angular_velocity, mo.quat(s), timestamps=ts)
        errs.append(np.abs(np.asarray(g) - w).max())
    m = 1 + np.abs(w).max()
    ctx.check(errs[3] <= max(0.6 * errs[1], 5e-4 * m)
              and errs[2] <= max(0.6 * errs[0], 5e-4 * m), "convergence",
              "error does not shrink with the sampling step", errors=errs)
    ctx.check(errs[3] <= 0.05 * m, "convergence", "error too large",
              errors=errs)
    ctx.nontrivial("convergence", clock.kind, ctx.case % 50)


@prop.scenario(1)
def special(ctx):
    """Constant rotation, constant rate, rotation-vector mode, units."""
    rng = ctx.rng
    clock = M.fine_clock(rng)
    n = int(rng.integers(5, 60))
    ts = clock.make(rng.uniform(0, 1), G.grid_steps(rng, n - 1, clock))
    s = clock.seconds(ts)
    # constant rotation
    q = np.tile(G.quat(rng), (n, 1))
    if rng.random() < 0.5:
        q = flip(rng, q)
    for mode in ("quaternion", "rotation_vector"):
        g = ctx.call(rbm.estimate_angular_velocity, q, timestamps=ts, mode=mode)
        ctx.close(np.asarray(g) * np.diff(s).min(), np.zeros((n, 3)),
                  "constant-zero", 1e-7 * clock.loose)
    # rotation-vector mode: gradient of the rotation vector, whatever the
    # signs of the quaternions (judged while less than a half turn away)
    q = O.continuous(G.walk_quat(rng, n, 0.4, flips=False))
    q = O.qmul(O.qconj(q[0]), q)
    q = q if q[0, 0] >= 0 else -q
    bad = np.flatnonzero(q[:, 0] < 0.05)
    k = bad[0] if len(bad) else n
    if k >= 5:
        q, tk, sk = q[:k], ts[:k], s[:k]
        h = np.diff(sk).min()
        want = O.gradient(2 * O.qlog(q), sk)
        sign = G.signs(rng, q)
        g = ctx.call(rbm.estimate_angular_velocity, q * sign,
                     timestamps=tk, mode="rotation_vector")
        ctx.close(np.asarray(g) * h, want * h, "rotation-vector",
                  1e-6 * clock.loose)
    # fixed axis: both modes give rate * axis
    n = 80
    ts = M.grid(rng, clock, n, 0.0, 2.0)
    s = M.secs(clock, ts, 0)
    ax = rng.standard_normal(3)
    ax /= np.linalg.norm(ax)
    rate = rng.uniform(-1.4, 1.4)
    q = O.rv2q(np.outer(rate * s - rng.uniform(0, 2), ax))
    q = q * rng.choice([-1.0, 1.0])
    want = np.tile(rate * ax, (n, 1))
    for mode in ("quaternion", "rotation_vector"):
        g = ctx.call(rbm.estimate_angular_velocity, q, timestamps=ts, mode=mode)
        ctx.close(np.asarray(g) / M.time_unit(clock), want, "rotation-vector"
                  if mode != "quaternion" else "true-velocity", 1e-3)
    # through frames, mode and allow_static agree with the function
    r = G.root(ctx, rbm)
    f = ctx.call(rbm.ReferenceFrame, "rv", parent=r.obj, rotation=q,
                 timestamps=ts)
    g = ctx.call(f.lookup_angular_velocity, represent_in=f,
                 mode="rotation_vector")
    ctx.close(np.asarray(g) / M.time_unit(clock), want, "rotation-vector", 1e-3)
    # coarse samples, where the two modes differ
    k = int(rng.integers(8, 30))
    tk = clock.make(0.0, G.grid_steps(rng, k - 1, clock))
    qk = O.rv2q(np.cumsum(rng.uniform(0, 0.2, (k, 3)) * rng.uniform(
        0.2, 1, 3), 0)[:, rng.permutation(3)] * 0.5)
    c = ctx.call(rbm.ReferenceFrame, "coarse", parent=r.obj, rotation=qk,
                 timestamps=tk)
    mode = str(rng.choice(["quaternion", "rotation_vector"]))
    want_c = np.asarray(ctx.call(rbm.estimate_angular_velocity, qk,
                                 timestamps=tk, mode=mode))
    got_c = {
        "lookup_twist": lambda: ctx.call(
            rbm.lookup_twist, c, r.obj, c, mode=mode)[1],
        "twist-method": lambda: ctx.call(
            c.lookup_twist, represent_in=c, mode=mode)[1],
        "twist-dataset": lambda: ctx.call(
            rbm.lookup_twist, c, r.obj, c, mode=mode,
            as_dataset=True).angular_velocity.values,
        "lookup": lambda: ctx.call(
            rbm.lookup_angular_velocity, c, r.obj, c, mode=mode),
        "method": lambda: ctx.call(
            c.lookup_angular_velocity, r.obj, c, mode=mode),
        "dataarray": lambda: ctx.call(
            rbm.lookup_angular_velocity, c, r.obj, c, mode=mode,
            as_dataarray=True).values}
    form = str(rng.choice(list(got_c)))
    ctx.close(np.asarray(got_c[form]()) / M.time_unit(clock),
              want_c / M.time_unit(clock), "mode-passed", 1e-7 * clock.loose,
              form=form, mode=mode)
    # resolution independence
    if clock.kind in G.GRAIN:
        a = ctx.call(rbm.estimate_angular_velocity, q, timestamps=ts)
        b = ctx.call(rbm.estimate_angular_velocity, q, timestamps=s)
        c = ctx.call(rbm.estimate_angular_velocity, q,
                     timestamps=ts.astype("M8[ns]"))
        ctx.close(a, b, "unit-invariance", 1e-6)
        ctx.close(a, c, "unit-invariance", 1e-9)
    ctx.nontrivial("special", clock.kind, n, rate > 0)

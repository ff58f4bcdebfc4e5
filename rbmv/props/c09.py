"""C09: linear velocity is the time derivative of position."""
import numpy as np
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C09",
    "linear velocity",
    "random trees of static/continuous/discrete frames with regular and "
    "irregular float/int/datetime64[ns|us|ms] grids, every frame / reference / "
    "representation triple and API form; and raw position arrays of 1-4 "
    "dimensions with every axis/time-axis position. Compared with an "
    "independent finite-difference + rotation oracle. Non-trivial: velocity "
    "actually estimated; signature = (API form, defaults used, clock, path "
    "kinds, clipped, reference!=representation).",
    quick=8000, thorough=120000,
    assumptions=["at least 2 common samples (5 for the twist)"],
)
prop.require("monitor:velocity", "monitor:timestamps", "monitor:static-raises",
             "monitor:static-zero", "monitor:estimate", "default:reference",
             "default:represent-top", "default:represent-method",
             "rep:moving-path", "rep:clipped", "clock:datetime",
             "estimate:dataarray")


def vel_oracle(clock, frame, ref, rep):
    """(v, ts, scale) of frame wrt ref represented in rep."""
    t, _, ts = O.lookup(frame, ref)
    if ts is None:
        return None, None, None
    if len(ts) < 2:
        return "short", ts, None
    s = clock.seconds(ts)
    v = O.gradient(t, s)
    scale = (1 + np.abs(t).max()) / np.diff(s).min()
    _, R, ts2 = O.lookup(ref, rep, ts)
    v = v[np.isin(ts, ts2)]
    return O.apply_R(R, v), ts2, scale


def pick3(ctx, frames):
    rng = ctx.rng
    dyn = [f for f in frames if f.ts is not None]
    f = dyn[rng.integers(len(dyn))] if dyn and rng.random() < 0.6 else \
        frames[rng.integers(len(frames))]
    return f, frames[rng.integers(len(frames))], frames[
        rng.integers(len(frames))]


@prop.scenario(3)
def lookups(ctx):
    rng = ctx.rng
    frames, clock, _ = G.tree(
        ctx, rbm, n=int(rng.integers(2, 7)),
        kinds=[("static", "moving"), ("static", "moving", "moving",
                                      "discrete")][rng.integers(2)])
    if clock.kind in G.GRAIN:
        ctx.events["clock:datetime"] += 1
    for _ in range(4):
        f, ref, rep = pick3(ctx, frames)
        kw = {}
        top = rng.random() < 0.5
        dref = f.parent is not None and rng.random() < 0.35
        drep = rng.random() < 0.35 and (top or f.parent is not None)
        if dref:
            ref = f.parent
            ctx.events["default:reference"] += 1
        else:
            kw["reference"] = G.ref(ctx, ref)
        if drep:
            rep = ref if top else f.parent
            ctx.events["default:represent-" + ("top" if top else "method")] += 1
        else:
            kw["represent_in"] = G.ref(ctx, rep)
        want, ts, scale = vel_oracle(clock, f, ref, rep)
        twist = rng.random() < 0.35
        if isinstance(want, str):
            continue
        if want is None:
            name = "lookup_twist" if twist else "lookup_linear_velocity"
            if top:
                ctx.rejects(ValueError, getattr(rbm, name), G.ref(ctx, f), **kw)
                ctx.events["monitor:static-raises"] += 1
            else:
                m = getattr(f.obj, name)
                ctx.rejects(ValueError, m, **kw)
                ctx.events["monitor:static-raises"] += 1
                z = ctx.call(m, allow_static=True, return_timestamps=True, **kw)
                ctx.close(z[0], np.zeros(3), "static-zero", 0)
                ctx.check(z[-1] is None, "static-zero")
                if twist:
                    ctx.close(z[1], np.zeros(3), "static-zero", 0)
            continue
        if twist:
            ts_f = O.lookup(f, ref)[2]
            if len(ts_f) < 5:
                continue
            # angular part is represented via frame -> rep
            ts_a = O.target_ts(*O.path(f, rep), array_ts=ts_f)
            both = np.intersect1d(ts, ts_a)
            if len(both) < 1 or len(ts) < 2 or len(ts_a) < 2:
                continue
            want = want[np.isin(ts, both)]
            ts = both
        form = "twist" if twist else "linear"
        if top:
            fn = rbm.lookup_twist if twist else rbm.lookup_linear_velocity
            m = rng.integers(3)
            if m == 0:
                k = "as_dataset" if twist else "as_dataarray"
                da = ctx.call(fn, G.ref(ctx, f), **{k: True}, **kw)
                if twist:
                    da = da.linear_velocity
                got, gts = da.values, da.time.values
            else:
                out = ctx.call(fn, G.ref(ctx, f), return_timestamps=m == 1,
                               **kw)
                if m == 1:
                    got, gts = out[0], out[-1]
                else:
                    got, gts = (out[0] if twist else out), ts
        else:
            fn = f.obj.lookup_twist if twist else f.obj.lookup_linear_velocity
            rt = rng.random() < 0.6
            out = ctx.call(fn, return_timestamps=rt, **kw)
            if rt:
                got, gts = out[0], out[-1]
            else:
                got, gts = (out[0] if twist else out), ts
        ctx.close(gts, ts, "timestamps")
        got = np.asarray(got)
        ctx.check(got.shape == want.shape, "velocity", f"shape {got.shape}")
        ctx.close(got / scale, want / scale, "velocity", 2e-7 * clock.loose,
                  frame=f.name, ref=ref.name, rep=rep.name)
        up, down = O.path(ref, rep)
        if any(x.ts is not None for x in up + down):
            ctx.events["rep:moving-path"] += 1
        if len(ts) < len(O.lookup(f, ref)[2]):
            ctx.events["rep:clipped"] += 1
        ctx.nontrivial(form, top, dref, drep, clock.kind,
                       tuple(sorted({x.kind for x in sum(O.path(f, ref), [])})),
                       len(ts) < len(O.lookup(f, ref)[2]), ref is rep)


@prop.scenario(2)
def estimates(ctx):
    rng = ctx.rng
    clock = G.Clock(rng)
    n = G.count(rng, 2, 14)
    ts = clock.make(rng.uniform(0, 3), G.grid_steps(rng, n - 1, clock))
    canon, extra = A.canonical(rng, "points", n)
    arr, ax, ta = A.place(rng, canon, True)
    nd = arr.ndim
    s = clock.seconds(ts)
    want = np.moveaxis(O.gradient(canon.astype(float), s), (0, -1), (ta, ax))
    scale = (1 + np.abs(canon.astype(float)).max()) / np.diff(s).min()
    tol = 1e-4 if arr.dtype == np.float32 else 1e-8 * clock.loose
    if rng.random() < 0.4:
        import xarray as xr

        dims = ["d%d" % i for i in range(nd)]
        dims[ax], dims[ta] = "cartesian_axis", "time"
        da = xr.DataArray(arr, {"time": ts, "lab": ("time", np.arange(n))},
                          dims, "pos", {"units": "m"})
        kw = {}
        if ax != nd - 1 or rng.random() < 0.5:
            kw["dim"] = "cartesian_axis"
        if ta != 0 or rng.random() < 0.5:
            kw["timestamps"] = "time"
        got = ctx.call(rbm.estimate_linear_velocity, da, **kw)
        ctx.check(got.dims == da.dims, "estimate-dims", got=got.dims)
        for c in da.coords:
            ctx.check(got.coords[c].identical(da.coords[c]), "estimate-coords",
                      c)
        got = got.values
        ctx.events["estimate:dataarray"] += 1
    else:
        kw = {"timestamps": ts}
        if clock.kind in ("float", "float0", "int") and rng.random() < 0.4:
            kw["timestamps"] = ts.tolist()
        if ax != nd - 1 or rng.random() < 0.5:
            kw["axis"] = A.neg(rng, ax, nd)
        if ta != 0 or rng.random() < 0.5:
            kw["time_axis"] = A.neg(rng, ta, nd)
        got = ctx.call(rbm.estimate_linear_velocity, G.dress(rng, arr), **kw)
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, "estimate", f"shape {got.shape}")
    ctx.close(got / scale, want / scale, "estimate", tol, axis=ax,
              time_axis=ta, shape=arr.shape)
    ctx.nontrivial("estimate", nd, ax, ta, clock.kind, str(arr.dtype), min(n, 4))


@prop.scenario(1)
def analytic(ctx):
    """Polynomial tracks: exact derivative for quadratics in the interior."""
    rng = ctx.rng
    clock = G.Clock(rng)
    r = G.root(ctx, rbm)
    n = G.count(rng, 4, 12)
    ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
    s = clock.seconds(ts)
    s = s - s[0]
    sc = max(s[-1], 1e-9)
    u = s / sc
    c = rng.standard_normal((3, 3))
    pos = c[0] + np.outer(u, c[1]) + np.outer(u**2, c[2])
    vel = (c[1] + 2 * np.outer(u, c[2])) / sc
    m = ctx.call(rbm.ReferenceFrame, "m", parent=r.obj, translation=pos,
                 timestamps=ts)
    v, vts = ctx.call(m.lookup_linear_velocity, return_timestamps=True)
    ctx.close(vts, ts, "timestamps")
    ctx.close(v[1:-1] * sc, vel[1:-1] * sc, "velocity",
              1e-6 * clock.loose)
    # one-sided at the ends
    ctx.close(v[0] * sc, (pos[1] - pos[0]) / (u[1] - u[0]), "velocity",
              1e-6 * clock.loose)
    ctx.close(v[-1] * sc, (pos[-1] - pos[-2]) / (u[-1] - u[-2]), "velocity",
              1e-6 * clock.loose)
    # resolution independence
    if clock.kind in G.GRAIN:
        other = ctx.call(rbm.estimate_linear_velocity, pos, timestamps=ts)
        fl = ctx.call(rbm.estimate_linear_velocity, pos, timestamps=s)
        ctx.close(other, fl, "unit-independence", 1e-9)
    ctx.nontrivial("analytic", clock.kind, n)

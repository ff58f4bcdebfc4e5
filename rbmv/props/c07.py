"""C07: calls never modify their inputs; queries never change later results."""
import os
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import numpy as np
import xarray as xr
import rigid_body_motion as rbm
from matplotlib import pyplot as plt

from .. import arrays as A, fakeros, gen as G, oracle as O, queries as Q
from ..core import Prop

HUB = fakeros.install()
import rigid_body_motion.ros as rros  # noqa: E402
from rigid_body_motion.ros import msg as rmsg, visualization  # noqa: E402

prop = Prop(
    "C07",
    "purity",
    "batteries of random queries (all read-only public functions, methods and "
    "accessors, on shared frame trees and private arrays) executed repeatedly "
    "in random order; between executions all returned arrays are overwritten "
    "with garbage, failing calls are injected and unrelated frames are added "
    "and dropped. Monitors compare byte snapshots of every argument and of "
    "every array a frame was built from before/after each call, and every "
    "repeated result with the first one. Non-trivial: query executed at least "
    "twice after interference; signature = (query kind, repetition, overwrite "
    "mode).",
    quick=2400, thorough=40000,
    assumptions=["writing into arrays the caller passed to a frame is the "
                 "caller's own modification and not tested"],
)
prop.require("monitor:argument-unchanged", "monitor:frame-input-unchanged",
             "monitor:repeat-identical", "overwritten", "monitor:attrs-kept",
             "noise:failing-call", "noise:tree-grown", "output:plot",
             "output:message", "output:bag")


def watch_list(q):
    return list(q.args) + list(q.kwargs.values()) + list(
        getattr(q, "watch", []))


def build_world(ctx):
    """Tree built from arrays we keep, so their bytes can be monitored."""
    rng = ctx.rng
    clock = G.Clock(rng)
    frames = [G.root(ctx, rbm)]
    kept = []
    for _ in range(int(rng.integers(2, 7))):
        p = frames[rng.integers(len(frames))]
        kind = rng.choice(["static", "moving", "moving", "discrete"])
        inv = bool(rng.random() < 0.4)
        disc = kind == "discrete"
        ts = None
        if kind == "static":
            t, q = G.vec(rng), G.quat(rng)
        else:
            n = int(rng.integers(6, 15))
            ts = clock.make(rng.uniform(0, 1), G.grid_steps(rng, n - 1, clock))
            t, q = G.vec(rng, n, 2.0), G.walk_quat(rng, n)
        args = [t, q] + ([] if ts is None else [ts])
        name = G.fresh_name()
        how = rng.integers(4)
        if how == 0 and ts is not None:
            ds = xr.Dataset({"p": (("time", "a"), t), "o": (("time", "b"), q)},
                            {"time": ts}, {"src": "x"})
            snap = Q.snapshot(ds)
            obj = ctx.call(rbm.ReferenceFrame.from_dataset, ds, "p", "o",
                           "time", p.obj, name, inverse=inv, discrete=disc)
            args.append(ds)
            kept.append((name, ds, snap))
        elif how == 1 and ts is not None:
            da = xr.DataArray(t, {"time": ts}, ("time", "a"), attrs={"k": 1})
            snap = Q.snapshot(da)
            q = np.tile([1.0, 0, 0, 0], (len(ts), 1))
            obj = ctx.call(rbm.ReferenceFrame.from_translation_dataarray, da,
                           "time", p.obj, name, inverse=inv, discrete=disc)
            kept.append((name, da, snap))
        elif how == 2 and ts is None:
            M = O.q2R(q)
            snap = Q.snapshot(M)
            t = np.zeros(3)
            obj = ctx.call(rbm.ReferenceFrame.from_rotation_matrix, M, p.obj,
                           name, inverse=inv)
            kept.append((name, M, snap))
        else:
            if rng.random() < 0.3:
                for x in args:
                    x.flags.writeable = False
            snaps = [Q.snapshot(x) for x in args]
            kw = {} if ts is None else {"timestamps": ts, "discrete": disc}
            obj = ctx.call(rbm.ReferenceFrame, name, p.obj, t, q, inverse=inv,
                           **kw)
            kept += [(name, x, s) for x, s in zip(args, snaps)]
        te, qe = G.invert(t, q) if inv else (t, q)
        m = O.Frame(name, p, te, qe, ts, disc, obj)
        m.reg, m.inverse = bool(rng.random() < 0.4), inv
        if m.reg:
            obj.register()
        frames.append(m)
    return frames, clock, kept


def run(ctx, q):
    snaps = [Q.snapshot(x) for x in watch_list(q)]
    res = ctx.call(q, _name=q.name)
    for x, s in zip(watch_list(q), snaps):
        ctx.check(Q.unchanged(x, s), "argument-unchanged",
                  f"{q.name} modified its argument", query=q.name, arg=x)
    return res


def overwrite(ctx, res):
    """The caller scribbles over everything a query returned."""
    n = 0
    for a in Q.arrays_of(res):
        if a.flags.writeable and a.size:
            if a.dtype.kind in "fc":
                a[...] = np.nan
            elif a.dtype.kind in "iu":
                a[...] = -7
            elif a.dtype.kind in "M":
                a[...] = np.datetime64("NaT")
            elif a.dtype == np.quaternion:
                a[...] = np.quaternion(np.nan, 0, 0, 0)
            n += 1
    for x in (res if isinstance(res, tuple) else (res,)):
        if isinstance(x, xr.DataArray):
            x.attrs.clear()
            x.attrs["scribble"] = 1
            n += 1
        elif isinstance(x, xr.Dataset):
            for v in x.data_vars:
                x[v].attrs.clear()
    ctx.events["overwritten"] += n


def noise(ctx, frames, clock):
    rng = ctx.rng
    m = rng.integers(3)
    if m == 0:
        ctx.events["noise:failing-call"] += 1
        f = frames[rng.integers(len(frames))]
        bad = [
            lambda: rbm.transform_points(np.zeros((2, 5)), f.obj, f.obj),
            lambda: rbm.lookup_transform(f.obj, "no such frame"),
            lambda: f.obj.transform_vectors(np.zeros(3), 3),
            lambda: f.obj.lookup_twist("nope"),
            lambda: rbm.transform_coordinates(np.zeros(3), "x", "y"),
        ][rng.integers(5)]
        try:
            bad()
        except Exception:
            pass
    elif m == 1:
        ctx.events["noise:tree-grown"] += 1
        p = frames[rng.integers(len(frames))]
        child = ctx.call(rbm.ReferenceFrame, G.fresh_name("tmp"), p.obj,
                         G.vec(rng))
        if rng.random() < 0.5:
            child.register()
            child.deregister()
        if rng.random() < 0.5:
            child.parent = None


def check_kept(ctx, kept):
    for name, x, s in kept:
        ctx.check(Q.unchanged(x, s), "frame-input-unchanged",
                  f"array used to build {name} was modified")


def battery(ctx, qs, frames, clock, kept, rounds=3):
    rng = ctx.rng
    base = {}
    for i, q in enumerate(qs):
        res = run(ctx, q)
        base[i] = Q.flatten(res)
        for a in Q.arrays_of(res):
            for x in watch_list(q):
                for b in Q.arrays_of(x):
                    if a.size and b.size and a.dtype != object:
                        ctx.check(not np.may_share_memory(a, b)
                                  or not np.shares_memory(a, b),
                                  "result-aliases-argument", q.name)
        overwrite(ctx, res)
        check_kept(ctx, kept)
    for r in range(rounds):
        for i in rng.permutation(len(qs)):
            if frames and rng.random() < 0.4:
                noise(ctx, frames, clock)
            res = run(ctx, qs[i])
            diff = Q.same(base[i], Q.flatten(res))
            ctx.check(diff is None, "repeat-identical",
                      f"{qs[i].name}: {diff} changed on repetition {r}",
                      query=qs[i].name)
            if rng.random() < 0.7:
                overwrite(ctx, res)
            ctx.nontrivial(qs[i].name, r, [
                np.shape(a) for x in watch_list(qs[i])
                for a in Q.arrays_of(x)], len(qs))
        check_kept(ctx, kept)
    ctx.check(all(True for _ in kept), "attrs-kept")


@prop.scenario(2)
def tree_queries(ctx):
    frames, clock, kept = build_world(ctx)
    qs = Q.frame_queries(ctx, frames, clock, int(ctx.rng.integers(6, 13)))
    ctx.describe(queries=[q.name for q in qs])
    battery(ctx, qs, frames, clock, kept)


@prop.scenario(1)
def function_queries(ctx):
    qs = Q.pure_queries(ctx, int(ctx.rng.integers(6, 13)))
    ctx.describe(queries=[q.name for q in qs])
    battery(ctx, qs, None, None, [])


@prop.scenario(1)
def attribute_dicts(ctx):
    """Attribute dictionaries of inputs (incl. via outof-from-attrs)."""
    rng = ctx.rng
    r = G.root(ctx, rbm, register=True)
    clock = G.Clock(rng)
    m = G.add_frame(ctx, rbm, r, clock, "moving", register=True, nmin=6)
    s = G.add_frame(ctx, rbm, m, clock, "static", register=True)
    n = len(m.ts)
    for f, what in (("transform_points", "reference_frame"),
                    ("transform_vectors", "representation_frame"),
                    ("transform_angular_velocity", "reference_frame")):
        at = {what: s.name, "nested": {"a": [1, 2]}}
        if rng.random() < 0.5:
            at["representation_frame"] = s.name
        da = xr.DataArray(G.vec(rng, n), {"time": m.ts}, ("time", "c"), "x",
                          at)
        snap = Q.snapshot(da)
        keep = repr(sorted(at.items()))
        tgt = rng.choice([r.name, m.name, s.name])
        r1 = ctx.call(getattr(rbm, f), da, tgt)
        ctx.check(Q.unchanged(da, snap) and repr(sorted(at.items())) == keep,
                  "attrs-kept", f)
        r1.attrs[what] = "scribble"
        ctx.check(Q.unchanged(da, snap), "attrs-kept", f)
        r2 = ctx.call(getattr(rbm, f), da, tgt)
        ctx.check(Q.same([k for k in Q.flatten(r1) if "attrs" not in k[0]],
                         [k for k in Q.flatten(r2) if "attrs" not in k[0]])
                  is None, "repeat-identical", f)
        ctx.nontrivial("attrs", f, tgt == s.name)


def readonly(rng, a):
    a = np.array(a)
    if rng.random() < 0.4:
        a.flags.writeable = False
    return a


@prop.scenario(1)
def outputs(ctx):
    """Plots, messages and bags only read what they are given."""
    rng = ctx.rng
    HUB.reset()
    n = int(rng.integers(1, 7))
    t, q = G.vec(rng, n), G.quat(rng, n)
    if rng.random() < 0.3:  # not unit, possibly all zero
        q = q * rng.integers(0, 3, (n, 1))
    if rng.random() < 0.4:
        t[rng.integers(n)] = np.nan
    if rng.random() < 0.3:
        q[rng.integers(n)] = np.nan
    t = readonly(rng, G.whole(rng, t, 0.1) if np.isfinite(t).all() else t)
    q, b = readonly(rng, q), readonly(rng, np.where(
        rng.random((n, 1)) < 0.2, np.nan, G.vec(rng, n)))
    wrap = rng.integers(3)
    if wrap == 1:
        t, q, b = (xr.DataArray(x, dims=("n", "c"), attrs={"k": [1]})
                   for x in (t, q, b))
    elif wrap == 2 and not (np.isnan(q).any() or np.isnan(b).any()):
        t, q, b = t.tolist(), q.tolist(), b.tolist()
    ok = not (np.isnan(np.asarray(q)).any() or (np.linalg.norm(
        np.asarray(q, float), axis=-1) == 0).any())
    m = rng.integers(3)
    args, kind = [t, q, b], ""
    snaps = [Q.snapshot(x) for x in args]
    if m == 0:
        kind = "plot"
        try:
            w = rng.integers(3 if ok else 2)
            bb = b if rng.random() < 0.7 else None
            if w == 0:
                ctx.call(rbm.plot.points, t)
            elif w == 1:
                ctx.call(rbm.plot.vectors, t, bb)
            else:
                ctx.call(rbm.plot.quaternions, np.asarray(q), bb)
        finally:
            plt.close("all")
    elif m == 1:
        kind, w = "message", rng.integers(5)
        k = int(rng.integers(n))
        tk, qk, bk = (x[k] for x in args)
        args += [tk, qk, bk]
        snaps += [Q.snapshot(x) for x in (tk, qk, bk)]
        if w == 0:
            ctx.call(rmsg.make_transform_msg, tk, qk, "a", "b", 1.5)
        elif w == 1:
            ctx.call(rmsg.make_pose_msg, tk, qk, "a", 1.5)
        elif w == 2:
            ctx.call(rmsg.make_twist_msg, tk, bk, "a")
        elif w == 3:
            ctx.call(rmsg.make_vector_msg, tk, "a")
        else:
            ctx.call(visualization.get_marker, position=tk, orientation=qk)
    else:
        kind = "bag"
        ts = np.sort(rng.uniform(1, 9, n))
        d = tempfile.mkdtemp(prefix="rbmv_c07_")
        try:
            if rng.random() < 0.3:
                ts = (ts * 1e9).astype("M8[ns]")
                as_ds = True
            else:
                as_ds = rng.random() < 0.5
            ts = readonly(rng, ts)
            ds = xr.Dataset({"position": (("time", "c"), np.array(t)),
                             "orientation": (("time", "q"), np.array(q))},
                            {"time": ts}, {"u": [1]})
            args += [ts, ds]
            snaps += [Q.snapshot(x) for x in (ts, ds)]
            with rros.RosbagWriter(os.path.join(d, "x.bag")) as w:
                if as_ds:
                    ctx.call(w.write_transform_stamped_dataset, ds, "/t", "a",
                             "b")
                else:
                    ctx.call(w.write_transform_stamped, ts, t, q, "/t", "a",
                             "b")
        finally:
            shutil.rmtree(d)
    for x, s in zip(args, snaps):
        ctx.check(Q.unchanged(x, s), "argument-unchanged",
                  f"{kind} modified its argument", arg=x)
    ctx.events["output:" + kind] += 1
    ctx.nontrivial("outputs", kind, int(w) if kind != "bag" else -1,
                   int(wrap), n, ok)

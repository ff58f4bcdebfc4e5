"""C04: array transforms apply the looked-up transform for any layout."""
import numpy as np
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C04",
    "array transforms",
    "random trees (static/continuous/discrete) and random arrays of points, "
    "vectors or quaternions: 1-5 dimensions, every position of spatial and "
    "time axis (positive or negative), float64/float32/int, strided/Fortran/"
    "read-only/list containers, own timestamps that coincide with, nest in, "
    "overlap or miss the frames' ranges; top-level function, method and "
    "DataArray form, all compared with an independent per-sample oracle. "
    "Non-trivial: at least one frame on the path; signature = (kind, ndim, "
    "axis, time axis, form, container dtype, frame kinds on path, resampled).",
    quick=12000, thorough=120000,
    assumptions=["strictly increasing timestamps",
                 "an array without timestamps crossing a moving frame is a "
                 "single vector"],
)
prop.require("monitor:transformed", "monitor:timestamps", "form:function",
             "form:method", "form:dataarray", "array:resampled", "array:exact",
             "array:static-through-moving", "layout:time-last",
             "layout:axis-first",
             "array:large")


def run_form(ctx, kind, a, b, arr, ax, ta, ats, timed):
    """One API form; returns (array in the input's layout, ts or None)."""
    rng = ctx.rng
    nd = arr.ndim
    form = rng.choice(["function", "method", "dataarray"])
    fname = "transform_" + kind
    kw = {}
    if ax != nd - 1 or rng.random() < 0.3:
        kw["axis"] = A.neg(rng, ax, nd)
    if timed and (ta != 0 or rng.random() < 0.3):
        kw["time_axis"] = A.neg(rng, ta, nd)
    want_ts = rng.random() < 0.7
    if form == "dataarray" and (ats is None or len(ats) >= 1):
        import xarray as xr

        dims = ["d%d" % i for i in range(nd)]
        dims[ax] = "xyz"
        coords = {}
        if timed:
            dims[ta] = "stamp"
            coords["stamp"] = ats
        da = xr.DataArray(arr, coords, tuple(dims))
        dkw = {}
        if "axis" in kw:
            if rng.random() < 0.5:
                dkw["axis"] = kw["axis"]
            else:
                dkw["dim"] = "xyz"
        if timed:
            if ta != 0 and rng.random() < 0.4:
                dkw["time_axis"] = kw["time_axis"]
            elif ta != 0 or rng.random() < 0.5:
                dkw["timestamps"] = "stamp"
        elif nd > 1:
            dkw["timestamps"] = False
        res = ctx.call(getattr(rbm, fname), da, into=G.ref(ctx, b),
                       outof=G.ref(ctx, a), **dkw)
        ctx.events["form:dataarray"] += 1
        if timed:
            ctx.check(res.dims == da.dims, "dataarray-dims", got=res.dims)
            return form, res.values, res["stamp"].values
        ts = res["time"].values if "time" in res.coords else None
        return form, res.values, ts
    if not isinstance(arr, list):
        arr = G.dress(rng, arr)
    if timed:
        t = ats
        if rng.random() < 0.2 and ats.dtype.kind != "M":
            t = ats.tolist()
        elif rng.random() < 0.3:
            import pandas as pd

            t = pd.Index(ats)
        kw["timestamps"] = t
    if form == "method":
        out = ctx.call(getattr(a.obj, fname), arr, G.ref(ctx, b),
                       return_timestamps=want_ts, **kw)
    else:
        form = "function"
        out = ctx.call(getattr(rbm, fname), arr, into=G.ref(ctx, b),
                       outof=G.ref(ctx, a), return_timestamps=want_ts, **kw)
    ctx.events["form:" + form] += 1
    if want_ts:
        ctx.check(isinstance(out, tuple) and len(out) == 2, "return-arity")
        return form, out[0], out[1]
    ctx.check(not isinstance(out, tuple), "return-arity")
    return form, out, "unknown"


def one(ctx, frames, clock, kind=None, timed=None):
    rng = ctx.rng
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = kind or rng.choice(["points", "vectors", "quaternions"])
    up, down = O.path(a, b)
    kinds = [f.kind for f in up + down]
    dynamic = any(k != "static" for k in kinds)
    timed = rng.random() < 0.7 if timed is None else timed
    if timed:
        ats = A.array_clock(rng, clock, frames)
        canon, extra = A.canonical(rng, kind, len(ats))
    else:
        ats = None
        canon, extra = A.canonical(rng, kind, None, () if dynamic else None)
    arr, ax, ta = A.place(rng, canon, timed)
    nd = arr.ndim
    want, ts = A.expect(kind, a, b, canon, ats)
    ctx.describe(kind=kind, shape=arr.shape, axis=ax, time_axis=ta,
                 timed=timed, path=kinds, dtype=str(arr.dtype))
    form, got, gts = run_form(ctx, kind, a, b, arr, ax, ta, ats, timed)
    got = np.asarray(got)
    if not isinstance(gts, str):
        if ts is None:
            ctx.check(gts is None, "timestamps", got=gts)
        else:
            ctx.check(gts is not None, "timestamps")
            ctx.close(np.asarray(gts), ts, "timestamps")
    if timed:
        ctx.check(got.ndim == nd, "transformed", f"ndim {got.ndim}!={nd}")
        back = np.moveaxis(got, (ta, ax), (0, -1))
    elif ts is not None:
        ctx.check(got.ndim == nd + 1, "transformed")
        back = got
    else:
        ctx.check(got.ndim == nd, "transformed")
        back = np.moveaxis(got, ax, -1)
    tol = 2e-5 if arr.dtype == np.float32 else A.tolerance(up + down, ats, ts)
    A.compare(ctx, kind, back, want, A.scale_of(a, b, canon), tol,
              form=form, axis=ax, time_axis=ta, pair=(a.name, b.name))
    if timed:
        same = len(ts) == len(ats)
        mov = [f for f in up + down if f.kind == "moving"]
        ctx.events["array:exact" if same else "array:clipped"] += 1
        if any(not np.all(np.isin(ts, f.ts)) for f in mov):
            ctx.events["array:resampled"] += 1
        if ta == nd - 1:
            ctx.events["layout:time-last"] += 1
    elif ts is not None:
        ctx.events["array:static-through-moving"] += 1
    if ax == 0:
        ctx.events["layout:axis-first"] += 1
    if kinds:
        ctx.nontrivial(kind, nd, ax, ta, form, str(arr.dtype),
                       tuple(sorted(set(kinds))), timed,
                       timed and len(ts) < len(ats))


@prop.scenario(3)
def layouts(ctx):
    rng = ctx.rng
    kinds = [("static",), ("static", "moving"), ("static", "moving", "moving",
                                                 "discrete")][rng.integers(3)]
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 5)), kinds=kinds)
    for _ in range(4):
        one(ctx, frames, clock)


@prop.scenario(1)
def forms_agree(ctx):
    """Function, method and DataArray form give the same numbers."""
    import xarray as xr

    rng = ctx.rng
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 4)),
                              kinds=("static", "moving"))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = rng.choice(["points", "vectors", "quaternions"])
    ats = A.array_clock(rng, clock, frames)
    canon, _ = A.canonical(rng, kind, len(ats), dtype="f8")
    arr, ax, ta = A.place(rng, canon, True)
    f = "transform_" + kind
    r1, t1 = ctx.call(getattr(rbm, f), arr, into=b.obj, outof=a.obj, axis=ax,
                      time_axis=ta, timestamps=ats, return_timestamps=True)
    r2, t2 = ctx.call(getattr(a.obj, f), arr, b.obj, axis=ax, time_axis=ta,
                      timestamps=ats, return_timestamps=True)
    dims = ["d%d" % i for i in range(arr.ndim)]
    dims[ta] = "time"
    da = xr.DataArray(arr, {"time": ats}, dims)
    r3 = ctx.call(getattr(rbm, f), da, into=b.obj, outof=a.obj, dim=dims[ax],
                  timestamps="time")
    sc = A.scale_of(a, b, canon)
    ctx.close(np.asarray(r2) / sc, np.asarray(r1) / sc, "forms-agree", 1e-12)
    ctx.close(r3.values / sc, np.asarray(r1) / sc, "forms-agree", 1e-12)
    ctx.close(t2, t1, "forms-agree")
    ctx.close(r3.time.values, t1, "forms-agree")
    ctx.nontrivial(kind, arr.ndim, ax, ta, "agree")


@prop.scenario(1)
def elementwise(ctx):
    """Each element of a stack is transformed as if it were alone."""
    rng = ctx.rng
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 4)),
                              kinds=("static", "moving", "discrete"))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = rng.choice(["points", "vectors", "quaternions"])
    ats = A.array_clock(rng, clock, frames)
    k = int(rng.integers(1, 6))
    canon, _ = A.canonical(rng, kind, len(ats), (k,), "f8")
    f = getattr(rbm, "transform_" + kind)
    full, ts = ctx.call(f, canon, into=b.obj, outof=a.obj, timestamps=ats,
                        return_timestamps=True)
    sc = A.scale_of(a, b, canon)
    for j in range(k):
        part, ts1 = ctx.call(f, canon[:, j], into=b.obj, outof=a.obj,
                             timestamps=ats, return_timestamps=True)
        ctx.close(ts1, ts, "elementwise")
        ctx.close(np.asarray(part) / sc, np.asarray(full)[:, j] / sc,
                  "elementwise", 1e-10)
    ctx.nontrivial(kind, k, "elementwise", len(ts) == len(ats))


@prop.scenario(0.05)
def large(ctx):
    """Sizes of real recordings: the same law, checked on every sample."""
    rng = ctx.rng
    timed = bool(rng.random() < 0.6)
    kinds = ("static", "moving") if timed else ("static",)
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 4)), kinds=kinds,
                              nmin=20, nmax=3000, window=(0.0, 300.0))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = rng.choice(["points", "vectors", "quaternions"])
    n = int(10 ** rng.uniform(2, 4.1))
    if timed:
        ats = clock.make(rng.uniform(-5, 30), np.full(
            n - 1, max(rng.uniform(200, 400) / n, 0.012)))
        canon, _ = A.canonical(rng, kind, n, (), "f8")
        kw = {"timestamps": ats}
    else:
        ats, kw = None, {}
        canon, _ = A.canonical(rng, kind, None, (n,), "f8")
    want, ts = A.expect(kind, a, b, canon, ats)
    out = ctx.call(getattr(rbm, "transform_" + kind), canon, into=G.ref(ctx, b),
                   outof=G.ref(ctx, a), return_timestamps=True, **kw)
    got, gts = out
    if timed:
        ctx.close(np.asarray(gts), ts, "timestamps")
    else:
        ctx.check(gts is None, "timestamps")
    up, down = O.path(a, b)
    A.compare(ctx, kind, got, want, A.scale_of(a, b, canon),
              A.tolerance(up + down, ats, ts))
    if up or down:
        ctx.nontrivial("large", kind, timed, int(np.log10(n)), len(up),
                       len(down))
    ctx.events["array:large"] += 1

"""C15: quaternion interpolation is exact at samples, rotation-valued between."""
import numpy as np
import xarray as xr
import rigid_body_motion as rbm
from quaternion import as_float_array, as_quat_array
from quaternion import quaternion as Q

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop
from .c06 import nearest

prop = Prop(
    "C15",
    "qinterp",
    "random rotation time series (random walks, constant rate, constant, sign "
    "flips, coarse to fine) on regular/irregular float/int/datetime grids, "
    "query times at samples, between, shuffled densities and empty; every "
    "position of the time and quaternion axes with extra dimensions, "
    "quaternion dtype, lists, DataArray accessor with all kinds of "
    "coordinates. Compared with an independent SQUAD and with the laws. "
    "Non-trivial: at least one query strictly between samples; signature = "
    "(form, ndim, axes, clock, series kind, query kind).",
    quick=12000, thorough=100000,
    assumptions=["at least two samples; query times inside the sampled range; "
                 "steps below pi"],
)
prop.require("monitor:unit", "monitor:at-samples", "monitor:squad",
             "monitor:constant-rate", "monitor:sign", "monitor:equivariant",
             "monitor:time-unit", "monitor:layout", "monitor:accessor-coords",
             "monitor:accessor-meta", "query:empty", "form:quaternion",
             "query:between", "coord:numeric", "coord:other",
             "series:long")


def series(ctx, clock, cols=1, n=None):
    rng = ctx.rng
    n = n or int(rng.integers(2, 14))
    if rng.random() < 0.01:
        n = int(10 ** rng.uniform(2, 4.8))
        ctx.events["series:long"] += 1
    ts = clock.make(rng.uniform(0, 5), G.grid_steps(rng, n - 1, clock))
    qs = [G.walk_quat(rng, n, rng.choice([0.05, 0.8, 1.5]), flips=False)
          for _ in range(cols)]
    return ts, np.stack(qs, 1)


def queries(ctx, clock, ts):
    rng = ctx.rng
    m = rng.integers(6)
    lo, hi = ts[0], ts[-1]
    if m == 0:
        return np.array(ts), "same"
    if m == 1 and len(ts) > 2:
        k = int(rng.integers(1, len(ts)))
        return ts[np.sort(rng.choice(len(ts), k, replace=False))], "subset"
    if m == 2 and rng.random() < 0.5:
        ctx.events["query:empty"] += 1
        return ts[:0], "empty"
    span = clock.seconds(ts)[-1] - clock.seconds(ts)[0]
    k = G.count(rng, 1, 20)
    g = clock.make(0.0, np.maximum(rng.uniform(0.2, 1, k), 1e-3) * span / k)
    t = ts[0] + (g - g[0])
    t = t[(t >= lo) & (t <= hi)]
    if rng.random() < 0.3:
        t = np.unique(np.concatenate([t, ts[:1], ts[-1:]]))
    if rng.random() < 0.15:
        t = rng.permutation(t)
        return t, "unsorted"
    return t, "between"


def flip(rng, q):
    """Random sign flips along time for every column."""
    return q * G.signs(rng, q)


@prop.scenario(4)
def function(ctx):
    rng = ctx.rng
    clock = G.Clock(rng)
    ne = int(rng.choice([0, 0, 1, 2]))
    extra = tuple(int(x) for x in rng.integers(1, 4, ne))
    ts, q = series(ctx, clock, int(np.prod(extra, dtype=int)))
    n = len(ts)
    q = q.reshape((n,) + extra + (4,))
    nd = q.ndim
    t, kind = queries(ctx, clock, ts)
    want = O.squad(q, O.tsf(ts), O.tsf(t)) if len(t) else q[:0]
    qf = flip(rng, q) if rng.random() < 0.6 else q
    kw = {}
    ti = ts.tolist() if clock.kind in ("float", "float0", "int") and \
        rng.random() < 0.3 else ts
    to = t.tolist() if clock.kind in ("float", "float0", "int") and \
        rng.random() < 0.3 and len(t) else t
    quat = rng.random() < 0.3
    if quat:
        ctx.events["form:quaternion"] += 1
        ta = int(rng.integers(nd - 1))
        arr = as_quat_array(np.ascontiguousarray(np.moveaxis(qf, 0, ta)))
        if ta or rng.random() < 0.4:
            kw["axis"] = A.neg(rng, ta, nd - 1)
        ax = nd
    else:
        arr, ax, ta = A.place(rng, qf, True)
        if ta or rng.random() < 0.4:
            kw["axis"] = A.neg(rng, ta, nd)
        if ax != nd - 1 or rng.random() < 0.4:
            kw["qaxis"] = A.neg(rng, ax, nd)
        arr = G.dress(rng, arr)
    got = np.asarray(ctx.call(rbm.qinterp, arr, ti, to, **kw))
    if quat:
        ctx.check(got.dtype == Q, "layout", "dtype")
        got = np.moveaxis(as_float_array(got), ta, 0)
    else:
        ctx.check(got.ndim == nd, "layout", f"shape {got.shape}")
        got = np.moveaxis(got, (ta, ax), (0, -1))
    ctx.check(got.shape == want.shape, "layout", f"shape {got.shape}",
              want=want.shape, axis=ta, qaxis=ax)
    if not len(t):
        return
    nrm = np.linalg.norm(got, axis=-1)
    ctx.close(nrm, np.ones_like(nrm), "unit", 1e-7)
    ctx.close(O.q2R(got), O.q2R(want), "squad", 2e-6, axis=ta, qaxis=ax,
              kind=kind)
    hit = np.isin(t, ts)
    if hit.any():
        idx = np.searchsorted(ts, t[hit])
        ctx.close(O.q2R(got[hit]), O.q2R(q[idx]), "at-samples", 1e-6)
    if (~hit).any():
        ctx.events["query:between"] += 1
        ctx.nontrivial("qinterp", nd, ta, ax, quat, clock.kind, kind, min(n, 4))


@prop.scenario(2)
def laws(ctx):
    rng = ctx.rng
    clock = G.Clock(rng)
    ts, q = series(ctx, clock)
    q = q[:, 0]
    t, kind = queries(ctx, clock, ts)
    if not len(t):
        return
    base = np.asarray(ctx.call(rbm.qinterp, q, ts, t))
    ctx.close(O.q2R(ctx.call(rbm.qinterp, flip(rng, q), ts, t)), O.q2R(base),
              "sign", 2e-6)
    g = G.quat(rng)
    ctx.close(O.q2R(ctx.call(rbm.qinterp, O.qmul(g, q), ts, t)),
              O.q2R(O.qmul(g, base)), "equivariant", 2e-6)
    ctx.close(O.q2R(ctx.call(rbm.qinterp, O.qmul(q, g), ts, t)),
              O.q2R(O.qmul(base, g)), "equivariant", 2e-6)
    # time unit and offset
    if clock.kind in G.GRAIN:
        u = str(rng.choice(["ns", "us", "ms"]))
        order = ["s", "ms", "us", "ns"]
        if order.index(u) < order.index(clock.kind):
            u = clock.kind  # never lose precision
        r = ctx.call(rbm.qinterp, q, ts.astype(f"M8[{u}]"), t)
        ctx.close(O.q2R(r), O.q2R(base), "time-unit", 1e-9)
        r = ctx.call(rbm.qinterp, q, ts, t.astype(f"M8[{u}]"))
        ctx.close(O.q2R(r), O.q2R(base), "time-unit", 1e-9)
        z = ts[0]
        r = ctx.call(rbm.qinterp, q, (ts - z).astype("m8[ns]").astype(float),
                     (t - z).astype("m8[ns]").astype(float))
        ctx.close(O.q2R(r), O.q2R(base), "time-unit", 2e-6)
    else:
        k, c = 2.0 ** rng.integers(-3, 6), float(rng.integers(-50, 50))
        r = ctx.call(rbm.qinterp, q, ts * k + c, t * k + c)
        ctx.close(O.q2R(r), O.q2R(base), "time-unit", 2e-6)
    # constant rate about a fixed axis, constant rotation
    s = O.tsf(ts) - O.tsf(ts)[0]
    st = O.tsf(t) - O.tsf(ts)[0]
    ax = rng.standard_normal(3)
    ax /= np.linalg.norm(ax)
    rate = rng.uniform(-2.5, 2.5) / np.diff(s).max()
    if rng.random() < 0.2:
        rate = 0.0
    q0 = G.quat(rng)
    qc = O.qmul(q0, O.rv2q(np.outer(rate * s, ax)))
    want = O.qmul(q0, O.rv2q(np.outer(rate * st, ax)))
    r = ctx.call(rbm.qinterp, flip(rng, qc), ts, t)
    ctx.close(O.q2R(r), O.q2R(want), "constant-rate", 3e-6)
    ctx.nontrivial("laws", clock.kind, kind, rate == 0)


@prop.scenario(3)
def accessor(ctx):
    rng = ctx.rng
    clock = G.Clock(rng)
    ne = int(rng.choice([0, 1, 2]))
    extra = tuple(int(x) for x in rng.integers(1, 4, ne))
    ts, q = series(ctx, clock, int(np.prod(extra, dtype=int)))
    n = len(ts)
    q = q.reshape((n,) + extra + (4,))
    nd = q.ndim
    t, kind = queries(ctx, clock, ts)
    if kind == "unsorted":
        t = np.sort(t)
    arr, ax, ta = A.place(rng, flip(rng, q), True)
    td = str(rng.choice(["time", "t", "stamp"]))
    qd = str(rng.choice(["quaternion_axis", "quaternion_axis", "qq"]))
    dims = ["d%d" % i for i in range(nd)]
    dims[ax], dims[ta] = qd, td
    coords = {td: ts, "scalar": 1.5}
    cls = {"scalar": "same"}
    if rng.random() < 0.7:
        coords[qd] = list("wxyz")
        cls[qd] = "same"
    if rng.random() < 0.7:
        coords["num"] = (td, rng.standard_normal(n))
        cls["num"] = "num"
    if rng.random() < 0.3:
        coords["int"] = (td, rng.integers(0, 9, n))
        cls["int"] = "num"
    if rng.random() < 0.6:
        coords["lab"] = (td, ["s%d" % i for i in range(n)])
        cls["lab"] = "other"
    if rng.random() < 0.3:
        coords["flag"] = (td, rng.random(n) < 0.5)
        cls["flag"] = "other"
    if rng.random() < 0.3:
        coords["date"] = (td, np.datetime64("2021-03-01", "ns")
                          + rng.integers(0, 10**6, n).astype("m8[s]"))
        cls["date"] = "other"
    for d, k in zip(dims, arr.shape):
        if d not in (td, qd):
            if rng.random() < 0.6:
                coords[d] = np.arange(k) * 1.5
                cls[d] = "same"
            if rng.random() < 0.3:
                coords["num2" + d] = ((td, d), rng.standard_normal((n, k)))
                cls["num2" + d] = "num"
    da = xr.DataArray(arr, coords, dims, "ori", {"u": [1]})
    before = da.copy(deep=True)
    tin = t
    if clock.kind in ("us", "ms") and rng.random() < 0.4:
        tin = t.astype("M8[ns]")
    if rng.random() < 0.3:
        tin = xr.DataArray(tin, {td: tin}, (td,))
    args, kw = ((), {td: tin}) if rng.random() < 0.5 else (({td: tin},), {})
    if qd != "quaternion_axis" or rng.random() < 0.3:
        kw["qdim"] = qd
    r = ctx.call(da.rbm.qinterp, *args, **kw)
    ctx.check(da.identical(before), "accessor-meta", "input changed")
    ctx.check(r.dims == da.dims and r.name == "ori" and r.attrs == {"u": [1]},
              "accessor-meta", got=(r.dims, r.name, r.attrs))
    ctx.check(set(r.coords) == set(da.coords), "accessor-coords",
              got=list(r.coords))
    ctx.close(O.tsf(r[td].values), O.tsf(t), "accessor-coords")
    want = O.squad(q, O.tsf(ts), O.tsf(t)) if len(t) else q[:0]
    got = np.moveaxis(r.values, (ta, ax), (0, -1))
    ctx.check(got.shape == want.shape, "layout", f"shape {got.shape}")
    if len(t):
        ctx.close(O.q2R(got), O.q2R(want), "squad", 2e-6)
    for c, k in cls.items():
        a, b = da.coords[c], r.coords[c]
        ctx.check(a.dims == b.dims, "accessor-coords", c)
        if k == "same":
            ctx.check(b.identical(a), "accessor-coords", c)
        elif k == "num":
            i = a.dims.index(td)
            w = np.moveaxis(O.lerp(np.moveaxis(a.values.astype(float), i, 0),
                                   O.tsf(ts), O.tsf(t)), 0, i)
            ctx.close(b.values, w, "accessor-coords", 1e-6, c)
            ctx.events["coord:numeric"] += 1
        else:
            for g, ok in zip(b.values, nearest(a.values, O.tsf(ts), O.tsf(t))):
                ctx.check(str(g) in ok, "accessor-coords", c, got=g, want=ok)
            ctx.events["coord:other"] += 1
    ctx.nontrivial("accessor", nd, ta, ax, clock.kind, kind,
                   tuple(sorted(cls.values())))

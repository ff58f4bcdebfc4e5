"""C06: xarray inputs keep labels, coordinates and frame metadata."""
import copy
import warnings

import numpy as np
import xarray as xr
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C06",
    "xarray metadata",
    "DataArrays with random dim order and names, extra dims, several extra "
    "coordinates of every kind (numeric/string/datetime along time, scalar, "
    "2-D, along other dims), names and attributes, transformed across random "
    "trees with resampling or clipping; Dataset/DataArray outputs of lookup_*. "
    "Monitors compare dims, name, attrs, each coordinate and values with an "
    "independent expectation. Non-trivial: every case with at least one "
    "monitored label; signature = (function, dim order, timestamps changed, "
    "coordinate kinds, attribute source).",
    quick=10000, thorough=80000,
    assumptions=["xarray's own linear interpolation of coordinates is "
                 "reproduced by an independent linear oracle"],
)
prop.require("monitor:attrs", "monitor:dims", "monitor:coord-numeric-time",
             "monitor:coord-other-time", "monitor:coord-untouched",
             "monitor:values", "monitor:leading-time", "monitor:lookup-attrs",
             "attrs:outof-from-attrs", "attrs:clash", "time:changed", "time:unchanged",
             "monitor:velocity-attrs")

FRAME_ATTR = {"points": "reference_frame", "vectors": "representation_frame",
              "quaternions": "reference_frame"}


def nearest(values, tf, wf):
    """For each target the set of acceptable nearest samples (ties)."""
    out = []
    for w in wf:
        d = np.abs(tf - w)
        out.append({str(v) for v in np.asarray(values)[d <= d.min() * (1 + 1e-9)]})
    return out


def decorate(ctx, dims, shape, td, sd, ats, width):
    """Coordinates of every kind; returns coords dict and their classes."""
    rng = ctx.rng
    coords, cls = {}, {}
    if td is not None:
        coords[td] = ats
    if rng.random() < 0.7:
        coords[sd] = list("xyzw"[:width])
    n = None if td is None else shape[dims.index(td)]
    if td is not None:
        if rng.random() < 0.7:
            coords["num_t"] = (td, rng.standard_normal(n))
            cls["num_t"] = "num"
        if rng.random() < 0.4:
            coords["int_t"] = (td, rng.integers(0, 100, n))
            cls["int_t"] = "num"
        if rng.random() < 0.6:
            coords["str_t"] = (td, ["s%d" % i for i in range(n)])
            cls["str_t"] = "other"
        if rng.random() < 0.3:
            coords["date_t"] = (
                td, np.datetime64("2021-01-01", "ns")
                + rng.integers(0, 10**9, n).astype("m8[s]"))
            cls["date_t"] = "other"
        if rng.random() < 0.3:
            coords["bool_t"] = (td, rng.random(n) < 0.5)
            cls["bool_t"] = "other"
    for d, k in zip(dims, shape):
        if d not in (td, sd) and rng.random() < 0.6:
            coords[d] = rng.choice([np.arange(k) * 2.5, np.arange(k)]) \
                if rng.random() < 0.5 else ["e%d" % i for i in range(k)]
            cls[d] = "same"
            if td is not None and rng.random() < 0.4:
                coords["num2_" + d] = ((d, td), rng.standard_normal((k, n)))
                cls["num2_" + d] = "num"
    if rng.random() < 0.4:
        coords["scalar"] = 4.25
        cls["scalar"] = "same"
    if rng.random() < 0.3:
        coords["label_s"] = (sd, ["l%d" % i for i in range(width)])
        cls["label_s"] = "same"
    return coords, cls


def check_coords(ctx, da, res, cls, td, sd, ats, ts):
    changed = not (len(ats) == len(ts) and np.all(ats == ts))
    ctx.events["time:changed" if changed else "time:unchanged"] += 1
    ctx.check(set(res.coords) == set(da.coords), "coord-set",
              got=list(res.coords), want=list(da.coords))
    ctx.close(res[td].values, np.asarray(ts, res[td].dtype)
              if res[td].dtype.kind == "M" else ts, "coord-time")
    tf, wf = O.tsf(ats), O.tsf(ts)
    for c, k in cls.items():
        before, after = da.coords[c], res.coords[c]
        ctx.check(after.dims == before.dims, "coord-dims", c)
        if k == "same" or not changed:
            ctx.check(after.identical(before), "coord-untouched", c,
                      got=after.values, want=before.values)
        elif k == "num":
            ax = before.dims.index(td)
            b = np.moveaxis(before.values.astype(float), ax, 0)
            w = np.moveaxis(O.lerp(b, tf, wf), 0, ax)
            ctx.close(after.values, w, "coord-numeric-time", 1e-6, c)
        else:
            for got, ok in zip(after.values, nearest(before.values, tf, wf)):
                ctx.check(str(got) in ok, "coord-other-time", c, got=got,
                          want=ok)
            ctx.events["monitor:coord-other-time"] += 1


@prop.scenario(4)
def transforms(ctx):
    rng = ctx.rng
    kinds = [("static",), ("static", "moving", "moving"),
             ("moving", "discrete")][rng.integers(3)]
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 5)), kinds=kinds)
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = rng.choice(["points", "vectors", "quaternions"])
    ats = A.array_clock(rng, clock, frames)
    canon, _ = A.canonical(rng, kind, len(ats), dtype="f8")
    arr, ax, ta = A.place(rng, canon, True)
    nd = arr.ndim
    td = rng.choice(["time", "stamp", "t"])
    sd = rng.choice(["cartesian_axis", "axis", "component"])
    dims = ["d%d" % i for i in range(nd)]
    dims[ax], dims[ta] = sd, td
    coords, cls = decorate(ctx, dims, arr.shape, td, sd, ats, canon.shape[-1])
    attrs = {"long_name": "Thing", "custom": [1, {"k": 2}], "units": "m"}
    what = FRAME_ATTR[kind]
    use_attr = a.reg and rng.random() < 0.6
    clash = False
    if use_attr or rng.random() < 0.3:
        attrs[what] = a.name
    elif rng.random() < 0.3:  # an explicit outof wins, with a warning
        other = frames[rng.integers(len(frames))]
        attrs[what] = other.name if rng.random() < 0.7 else "elsewhere"
        clash = attrs[what] != a.name
    if rng.random() < 0.4:
        attrs.setdefault("representation_frame", a.name)
    name = rng.choice([None, "my_array"])
    da = xr.DataArray(arr, coords, dims, name, attrs)
    a0 = copy.deepcopy(da.attrs)
    kw = {}
    if not use_attr:
        kw["outof"] = G.ref(ctx, a)
    else:
        ctx.events["attrs:outof-from-attrs"] += 1
    if ax != nd - 1 or rng.random() < 0.3:
        kw["dim"] = sd
    if ta != 0 or rng.random() < 0.4:
        kw["timestamps"] = td
    ctx.describe(dims=dims, coords=list(coords), attrs=attrs, kw=list(kw))
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        res = ctx.call(getattr(rbm, "transform_" + kind), da, G.ref(ctx, b),
                       **kw)
    warned = any(issubclass(w.category, UserWarning) and what in str(w.message)
                 for w in log)
    ctx.check(warned == clash, "warning",
              f"conflicting frame attribute {clash}, warned {warned}")
    if clash:
        ctx.events["attrs:clash"] += 1
    ctx.check(isinstance(res, xr.DataArray), "dims", "not a DataArray")
    ctx.check(res.dims == da.dims, "dims", got=res.dims, want=da.dims)
    ctx.check(res.name == da.name, "name", got=res.name)
    want_attrs = dict(a0)
    want_attrs[what] = b.name
    want_attrs["representation_frame"] = b.name
    ctx.check(dict(res.attrs) == want_attrs, "attrs", got=res.attrs,
              want=want_attrs)
    ctx.check(da.attrs == a0, "attrs", "input attributes modified")
    want, ts = A.expect(kind, a, b, canon, ats)
    check_coords(ctx, da, res, cls, td, sd, ats, ts)
    A.compare(ctx, kind, np.moveaxis(res.values, (ta, ax), (0, -1)), want,
              A.scale_of(a, b, canon), 2e-7, "values")
    ctx.nontrivial(kind, nd, ax, ta, tuple(sorted(cls.values())), use_attr,
                   len(ts) == len(ats))


@prop.scenario(1)
def static_arrays(ctx):
    """No time dimension, or a single vector crossing a moving frame."""
    rng = ctx.rng
    dyn = rng.random() < 0.6
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 4)),
                              kinds=("static", "moving") if dyn else ("static",))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    kind = rng.choice(["points", "vectors", "quaternions"])
    moving = any(f.ts is not None for f in sum(O.path(a, b), []))
    canon, _ = A.canonical(rng, kind, None, () if moving else None, "f8")
    arr, ax, _ = A.place(rng, canon, False)
    nd = arr.ndim
    sd = "comp"
    dims = ["d%d" % i for i in range(nd)]
    dims[ax] = sd
    coords, cls = decorate(ctx, dims, arr.shape, None, sd, None,
                           canon.shape[-1])
    what = FRAME_ATTR[kind]
    attrs = {"note": "n"}
    kw = {"outof": G.ref(ctx, a)}
    if a.reg and rng.random() < 0.5:
        attrs[what] = a.name
        kw = {}
    da = xr.DataArray(arr, coords, dims, "nm", attrs)
    if ax != nd - 1 or rng.random() < 0.3:
        kw["dim"] = sd
    if nd > 1 or rng.random() < 0.3:
        kw["timestamps"] = False
    res = ctx.call(getattr(rbm, "transform_" + kind), da, G.ref(ctx, b), **kw)
    want, ts = A.expect(kind, a, b, canon, None)
    if ts is not None:
        ctx.check(res.dims == ("time",) + da.dims, "leading-time",
                  got=res.dims)
        ctx.close(res.time.values, ts, "leading-time")
        back = res.values
    else:
        ctx.check(res.dims == da.dims, "dims", got=res.dims)
        ctx.check("time" not in res.coords, "dims", "unexpected time")
        back = np.moveaxis(res.values, ax, -1)
    for c in da.coords:
        ctx.check(c in res.coords and res.coords[c].identical(da.coords[c]),
                  "coord-untouched", c)
    wa = dict(attrs, representation_frame=b.name)
    wa[what] = b.name
    ctx.check(dict(res.attrs) == wa, "attrs", got=res.attrs, want=wa)
    ctx.check(res.name == "nm", "name")
    A.compare(ctx, kind, back, want, A.scale_of(a, b, canon),
              A.tolerance(sum(O.path(a, b), []), None, ts), "values")
    ctx.nontrivial("static", kind, nd, ax, ts is not None, "outof" in kw)


@prop.scenario(1)
def velocity_arrays(ctx):
    """Frame attributes selected by `what` for velocity DataArrays."""
    rng = ctx.rng
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 4)),
                              kinds=("static",))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    n = int(rng.integers(2, 8))
    ats = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
    arr = G.vec(rng, n, 2.0)
    what = rng.choice(["reference_frame", "moving_frame",
                       "representation_frame"])
    use_attr = a.reg and rng.random() < 0.6
    attrs = {"keep": 3}
    for k in ("reference_frame", "moving_frame", "representation_frame"):
        if rng.random() < 0.4:
            attrs[k] = a.name if k == what else "elsewhere"
    if use_attr:
        attrs[what] = a.name
    da = xr.DataArray(
        arr, {"time": ats, "cartesian_axis": list("xyz"),
              "extra": ("time", rng.standard_normal(n))},
        ("time", "cartesian_axis"), "vel", attrs)
    kw = {} if use_attr else {"outof": a.obj}
    lin = rng.random() < 0.5
    if lin:
        if what == "reference_frame":
            kw["moving_frame"] = G.ref(ctx, frames[rng.integers(len(frames))])
        elif what == "moving_frame":
            kw["reference_frame"] = G.ref(
                ctx, frames[rng.integers(len(frames))])
    f = rbm.transform_linear_velocity if lin else rbm.transform_angular_velocity
    res = ctx.call(f, da, G.ref(ctx, b), what=what, **kw)
    wa = dict(attrs)
    wa[what] = b.name
    wa["representation_frame"] = b.name
    ctx.check(dict(res.attrs) == wa, "velocity-attrs", got=res.attrs, want=wa)
    ctx.check(dict(da.attrs) == attrs, "velocity-attrs", "input modified")
    ctx.check(res.dims == da.dims and res.name == "vel", "dims")
    for c in da.coords:
        ctx.check(res.coords[c].identical(da.coords[c]), "coord-untouched", c)
    _, R, _ = O.lookup(a, b)
    # between static frames only the representation changes
    ctx.close(res.values, O.apply_R(R, arr), "values", 1e-8)
    ctx.nontrivial("vel", what, lin, use_attr)


@prop.scenario(2)
def lookups(ctx):
    rng = ctx.rng
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 5)),
                              kinds=("static", "moving", "discrete"))
    a = frames[rng.integers(len(frames))]
    b = frames[rng.integers(len(frames))]
    for pose in (False, True):
        f = rbm.lookup_pose if pose else rbm.lookup_transform
        ds = ctx.call(f, G.ref(ctx, a), G.ref(ctx, b), as_dataset=True)
        t, q, ts = ctx.call(f, G.ref(ctx, a), G.ref(ctx, b),
                            return_timestamps=True)
        ln, an = (("position", "orientation") if pose
                  else ("translation", "rotation"))
        ctx.check(set(ds.data_vars) == {ln, an}, "lookup-vars")
        lead = () if ts is None else ("time",)
        ctx.check(ds[ln].dims == lead + ("cartesian_axis",), "lookup-dims")
        ctx.check(ds[an].dims == lead + ("quaternion_axis",), "lookup-dims")
        ctx.check(list(ds.cartesian_axis.values) == list("xyz"), "lookup-axes")
        ctx.check(list(ds.quaternion_axis.values) == list("wxyz"),
                  "lookup-axes")
        ctx.close(ds[ln].values, t, "lookup-values", 0)
        ctx.close(ds[an].values, q, "lookup-values", 0)
        if ts is not None:
            ctx.close(ds.time.values, ts, "lookup-values")
        else:
            ctx.check("time" not in ds.coords, "lookup-values")
        fr = b if pose else a
        for v in (ln, an):
            at = ds[v].attrs
            ctx.check(at.get("reference_frame") == fr.name
                      and at.get("representation_frame") == fr.name
                      and at.get("motion_type") == v
                      and at.get("long_name", "").lower() == v, "lookup-attrs",
                      got=at, frame=fr.name)
        ctx.check(ds[ln].attrs.get("units") == "m", "lookup-attrs")
    up, down = O.path(a, b)
    ts_ab = O.lookup(a, b)[2]
    c = frames[rng.integers(len(frames))]
    if ts_ab is None or len(ts_ab) < 5 or a is b:
        ctx.nontrivial("lookup", ts_ab is None, len(up), len(down))
        return
    rep_ts = O.target_ts(*O.path(b, c), array_ts=ts_ab)
    rep_ts2 = O.target_ts(*O.path(a, c), array_ts=ts_ab)
    if len(rep_ts) < 2 or len(rep_ts2) < 2:
        return
    kw = {"reference": G.ref(ctx, b)}
    rep = b
    if rng.random() < 0.7:
        kw["represent_in"] = G.ref(ctx, c)
        rep = c
    tw = ctx.call(rbm.lookup_twist, G.ref(ctx, a), as_dataset=True, **kw)
    lin, ang, ts = ctx.call(rbm.lookup_twist, G.ref(ctx, a),
                            return_timestamps=True, **kw)
    lv = ctx.call(rbm.lookup_linear_velocity, G.ref(ctx, a),
                  as_dataarray=True, **kw)
    l2, lts = ctx.call(rbm.lookup_linear_velocity, G.ref(ctx, a),
                       return_timestamps=True, **kw)
    av = ctx.call(rbm.lookup_angular_velocity, G.ref(ctx, a),
                  as_dataarray=True, **kw)
    a2, avts = ctx.call(rbm.lookup_angular_velocity, G.ref(ctx, a),
                        return_timestamps=True, **kw)
    for da, vals, tt, mt, un in (
        (tw.linear_velocity, lin, ts, "linear_velocity", "m/s"),
        (tw.angular_velocity, ang, ts, "angular_velocity", "rad/s"),
        (lv, l2, lts, "linear_velocity", "m/s"),
        (av, a2, avts, "angular_velocity", "rad/s"),
    ):
        ctx.close(da.values, vals, "lookup-values", 0)
        ctx.close(da.time.values, tt, "lookup-values")
        ctx.check(da.dims == ("time", "cartesian_axis"), "lookup-dims")
        ctx.check(list(da.cartesian_axis.values) == list("xyz"), "lookup-axes")
        at = da.attrs
        want = dict(reference_frame=b.name, representation_frame=rep.name,
                    moving_frame=a.name, motion_type=mt, units=un)
        ctx.check(all(at.get(k) == v for k, v in want.items()),
                  "lookup-attrs", got=at, want=want)
        ctx.check(da.name == mt, "lookup-attrs", got=da.name)
    ctx.nontrivial("lookup-vel", len(up), len(down), "represent_in" in kw,
                   len(ts) == len(ts_ab))


@prop.scenario(1)
def pipeline(ctx):
    """Attributes written by one call drive the next one."""
    rng = ctx.rng
    r = G.root(ctx, rbm, register=True)
    clock = G.Clock(rng)
    m = G.add_frame(ctx, rbm, r, clock, "moving", register=True)
    s = G.add_frame(ctx, rbm, m, clock, "static", register=True)
    o = G.add_frame(ctx, rbm, r, clock, "static", register=True)
    ds = ctx.call(rbm.lookup_pose, s.name, r.name, as_dataset=True)
    p1 = ctx.call(rbm.transform_points, ds.position, o.name)
    q1 = ctx.call(rbm.transform_quaternions, ds.orientation, o.name)
    ref = ctx.call(rbm.lookup_pose, s.name, o.name, as_dataset=True)
    sc = A.scale_of(s, o, np.zeros(3))
    ctx.close(p1.values / sc, ref.position.values / sc, "values", 1e-7)
    ctx.same_rotation(q1.values, ref.orientation.values, "values")
    for v, w in ((p1, ref.position), (q1, ref.orientation)):
        ctx.check(v.attrs["reference_frame"] == o.name
                  and v.attrs["representation_frame"] == o.name, "attrs")
    p2 = ctx.call(rbm.transform_points, p1, m.name)
    t, R, _ = O.lookup(s, m)
    ctx.close(p2.values / sc, np.tile(t, (len(m.ts), 1)) / sc, "values", 1e-7)
    ctx.check(p2.attrs["reference_frame"] == m.name, "attrs")
    ctx.nontrivial("pipeline", clock.kind, m.inverse, s.inverse, o.inverse)

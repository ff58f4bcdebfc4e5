"""C16: coordinate-system transforms follow their definitions, round-trip."""
import math

import numpy as np
import xarray as xr
import rigid_body_motion as rbm

from .. import arrays as A, gen as G
from ..core import Prop

prop = Prop(
    "C16",
    "coordinate systems",
    "random, axis-aligned, origin, quadrant-border, negative-zero, tiny and "
    "huge points in arrays of 1-5 dimensions with the coordinate axis "
    "anywhere, lists, float32/int dtypes, DataArrays in every dim order with "
    "coordinates and attributes; compared elementwise with scalar "
    "definitions (math.atan2/hypot/acos), range and round-trip monitors. "
    "Non-trivial: every case; signature = (pair, API, ndim, axis, dtype, "
    "options).",
    quick=48000, thorough=200000,
    assumptions=["coordinates whose squares are representable"],
)
prop.require("monitor:definition", "monitor:ranges", "monitor:round-trip",
             "monitor:relabelled", "monitor:kept-dim", "monitor:attrs",
             "monitor:rejected", "point:origin", "point:axis",
             "monitor:untouched", "attrs:source", "monitor:method-alias",
             "coord:two-dim")

LAB = {("cartesian", 2): ("cartesian_axis", ["x", "y"]),
       ("cartesian", 3): ("cartesian_axis", ["x", "y", "z"]),
       ("polar", 2): ("polar_axis", ["r", "phi"]),
       ("spherical", 3): ("spherical_axis", ["r", "theta", "phi"])}
PAIRS = [("cartesian", "polar"), ("polar", "cartesian"),
         ("cartesian", "spherical"), ("spherical", "cartesian")]
FN = {p: f"{p[0]}_to_{p[1]}" for p in PAIRS}


def width(pair):
    return 2 if "polar" in pair else 3


def scalar(pair, p):
    p = [float(x) for x in p]
    if pair == ("cartesian", "polar"):
        return [math.hypot(*p), math.atan2(p[1], p[0])]
    if pair == ("polar", "cartesian"):
        return [p[0] * math.cos(p[1]), p[0] * math.sin(p[1])]
    if pair == ("cartesian", "spherical"):
        return [math.hypot(*p), math.atan2(math.hypot(p[0], p[1]), p[2]),
                math.atan2(p[1], p[0])]
    r, th, ph = p
    return [r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph),
            r * math.cos(th)]


def points(ctx, pair, shape):
    rng = ctx.rng
    w = width(pair)
    p = rng.standard_normal(shape + (w,)) * 10.0 ** rng.integers(-3, 4)
    m = rng.integers(6)
    if pair[0] != "cartesian":
        p[..., 0] = np.abs(p[..., 0])
        p[..., 1:] = rng.uniform(-7, 7, shape + (w - 1,)) if m == 0 else \
            rng.uniform(-np.pi, np.pi, shape + (w - 1,))
        if w == 3 and m:
            p[..., 1] = np.abs(p[..., 1])
        if m == 1:
            p[..., 1:] = np.asarray(rng.choice(
                [0, np.pi, np.pi / 2], shape + (w - 1,)))
            p[..., 0] *= rng.random(shape) < 0.7
    elif m <= 1:
        mask = rng.random(shape + (w,)) < 0.5
        p = np.where(mask, rng.choice([0.0, -0.0], shape + (w,)), p)
        if (p == 0).all(-1).any():
            ctx.events["point:origin"] += 1
        if ((p != 0).sum(-1) == 1).any():
            ctx.events["point:axis"] += 1
    elif m == 2:
        p = p * 10.0 ** rng.integers(-100, 100)
    elif m == 3:
        p = p * 10.0 ** rng.uniform(-8, 8, shape + (w,))
    dt = str(rng.choice(["f8", "f8", "f8", "f4", "i8"]))
    if rng.random() < 0.06 and (m > 1 or pair[0] == "cartesian"):
        ctx.events["point:integer"] += 1
        return G.as_int(rng, p, cap=1e15 if pair[0] == "cartesian" else 60.0)[0]
    if dt == "f4" and m != 2:
        p = p.astype("f4")
    elif dt == "i8" and m not in (2, 3):
        p = np.round(p).astype("i8")
    return p


def definition(pair, p):
    flat = p.reshape(-1, p.shape[-1])
    out = np.array([scalar(pair, x) for x in flat]) if len(flat) else flat
    return out.reshape(p.shape)


def check_values(ctx, pair, p, got, **d):
    """got (..., w) against the scalar definition."""
    want = definition(pair, p)
    ctx.check(got.shape == want.shape, "definition", f"shape {got.shape}")
    tol = 1e-5 if p.dtype == np.float32 else 1e-9
    if pair[0] == "cartesian":
        sc = np.maximum(np.abs(want[..., :1]), 1e-300)
        ctx.close(got[..., :1] / sc, want[..., :1] / sc, "definition", tol,
                  **d)
        # angles: compare as directions (pi and -pi are the same azimuth)
        ctx.close(np.cos(got[..., 1:]), np.cos(want[..., 1:]), "definition",
                  tol * 10, **d)
        ctx.close(np.sin(got[..., 1:]), np.sin(want[..., 1:]), "definition",
                  tol * 10, **d)
        e = 1e-6
        ctx.check(np.all(got[..., 0] >= 0), "ranges", "negative radius")
        ctx.check(np.all(np.abs(got[..., -1]) <= np.pi + e), "ranges",
                  "azimuth outside [-pi, pi]")
        if width(pair) == 3:
            ctx.check(np.all((got[..., 1] >= -e) & (got[..., 1] <= np.pi + e)),
                      "ranges", "polar angle outside [0, pi]")
    else:
        sc = np.maximum(np.abs(np.asarray(p, float)[..., :1]), 1e-300)
        ctx.close(got / sc, want / sc, "definition", tol * 10, **d)
    ctx.check(np.all(np.isfinite(got)), "definition", "not finite", **d)


@prop.scenario(4)
def arrays(ctx):
    rng = ctx.rng
    pair = PAIRS[rng.integers(4)]
    shape = G.shape(rng, G.rank(rng))
    p = points(ctx, pair, shape)
    arr, ax, _ = A.place(rng, p, False)
    nd = arr.ndim
    kw = {}
    if ax != nd - 1 or rng.random() < 0.4:
        kw["axis"] = A.neg(rng, ax, nd)
    x = G.dress(rng, arr)
    m = rng.integers(2)
    if m == 0 and hasattr(rbm, FN[pair]):
        got = ctx.call(getattr(rbm, FN[pair]), x, **kw)
        ctx.events["monitor:method-alias"] += 1
    else:
        got = ctx.call(rbm.transform_coordinates, x, into=pair[1],
                       outof=pair[0], **kw)
    got = np.moveaxis(np.asarray(got), ax, -1)
    check_values(ctx, pair, p, got, axis=ax)
    if pair[0] == "cartesian":
        back = ctx.call(rbm.transform_coordinates, np.moveaxis(got, -1, ax),
                        into="cartesian", outof=pair[1], axis=ax)
        n = np.maximum(np.abs(np.asarray(p, float)).max(-1, keepdims=True),
                       1e-300)
        ctx.close(np.moveaxis(np.asarray(back), ax, -1) / n,
                  np.asarray(p, float) / n, "round-trip",
                  1e-5 if p.dtype == np.float32 else 1e-9)
    ctx.nontrivial(pair, nd, ax, str(p.dtype), int(m))


@prop.scenario(3)
def dataarrays(ctx):
    rng = ctx.rng
    pair = PAIRS[rng.integers(4)]
    w = width(pair)
    shape = G.shape(rng, G.rank(rng))
    p = points(ctx, pair, shape)
    arr, ax, _ = A.place(rng, p, False)
    nd = arr.ndim
    odim, olab = LAB[(pair[0], w)]
    if rng.random() < 0.3:
        odim = "comp"
    dims = ["d%d" % i for i in range(nd)]
    dims[ax] = odim
    coords = {"scalar": 2}
    if rng.random() < 0.7:
        coords[odim] = olab
    if rng.random() < 0.3:
        coords["note"] = (odim, ["n%d" % i for i in range(w)])
    if nd > 1 and rng.random() < 0.3:
        # two-dimensional coordinate along the spatial dimension
        d = dims[(ax + 1) % nd]
        two = [odim, d] if rng.random() < 0.5 else [d, odim]
        coords["two"] = (two, rng.standard_normal(
            [arr.shape[dims.index(x)] for x in two]))
        ctx.events["coord:two-dim"] += 1
    for d, k in zip(dims, arr.shape):
        if d != odim and rng.random() < 0.7:
            coords[d] = np.arange(k) * 0.5
            if rng.random() < 0.4:
                coords["lab_" + d] = (d, ["l%d" % i for i in range(k)])
    attrs = {"units": "m"}
    use = rng.random() < 0.5
    if use or rng.random() < 0.3:
        attrs["coordinate_system"] = pair[0]
    da = xr.DataArray(arr, coords, dims, "thing", attrs)
    before = da.copy(deep=True)
    kw = {}
    if use:
        ctx.events["attrs:source"] += 1
    else:
        kw["outof"] = pair[0]
    if ax != nd - 1 or rng.random() < 0.4:
        kw["dim"] = odim
    keep = rng.random() < 0.35
    if keep or rng.random() < 0.3:
        kw["replace_dim"] = not keep
    r = ctx.call(rbm.transform_coordinates, da, into=pair[1], **kw)
    ctx.check(da.identical(before), "untouched", "input changed")
    wa = dict(attrs)
    if "coordinate_system" in wa:
        wa["coordinate_system"] = pair[1]
    ctx.check(dict(r.attrs) == wa, "attrs", got=r.attrs, want=wa)
    ctx.check(r.name == "thing", "attrs", got=r.name)
    if keep:
        ctx.check(r.dims == da.dims, "kept-dim", got=r.dims)
        ctx.check(set(r.coords) == set(da.coords) and all(
            r.coords[c].identical(da.coords[c]) for c in da.coords),
            "kept-dim", got=list(r.coords))
    else:
        ndim, nlab = LAB[(pair[1], w)]
        wd = tuple(ndim if d == odim else d for d in dims)
        ctx.check(r.dims == wd, "relabelled", got=r.dims, want=wd)
        ctx.check(list(r[ndim].values) == nlab, "relabelled",
                  got=r[ndim].values)
        rest = {c for c in da.coords if odim not in da.coords[c].dims}
        ctx.check(set(r.coords) == rest | {ndim}, "relabelled",
                  got=list(r.coords))
        for c in rest:
            ctx.check(r.coords[c].identical(da.coords[c]), "untouched", c)
    check_values(ctx, pair, p, np.moveaxis(r.values, ax, -1))
    if not keep and pair[0] == "cartesian" and rng.random() < 0.5:
        # the result's own labels drive the way back
        kw2 = {"dim": LAB[(pair[1], w)][0]}
        if "coordinate_system" not in wa:
            kw2["outof"] = pair[1]
        b = ctx.call(rbm.transform_coordinates, r, into="cartesian", **kw2)
        n = np.maximum(np.abs(np.asarray(p, float)).max(-1, keepdims=True),
                       1e-300)
        ctx.close(np.moveaxis(b.values, ax, -1) / n, np.asarray(p, float) / n,
                  "round-trip", 1e-5 if p.dtype == np.float32 else 1e-9)
        ctx.check(list(b["cartesian_axis"].values) == list("xyz"[:w]),
                  "relabelled")
    ctx.nontrivial("da", pair, nd, ax, keep, use, len(coords))


@prop.scenario(1)
def unsupported(ctx):
    """Every other pair is rejected."""
    rng = ctx.rng
    names = ["cartesian", "polar", "spherical", "cylindrical", "quaternion",
             "Cartesian", ""]
    a, b = str(rng.choice(names)), str(rng.choice(names))
    w = int(rng.integers(2, 4))
    x = rng.standard_normal((3, w))
    if (a, b) in PAIRS:
        if w != width((a, b)):
            ctx.rejects(ValueError, rbm.transform_coordinates, x, b, a)
        return
    ctx.rejects(ValueError, rbm.transform_coordinates, x, b, a)
    da = xr.DataArray(x, dims=("n", "c"), attrs={"coordinate_system": a})
    ctx.rejects(ValueError, rbm.transform_coordinates, da, b)
    ctx.rejects(ValueError, rbm.transform_coordinates, x, "polar")
    ctx.events["monitor:rejected"] += 1
    ctx.nontrivial("reject", a, b, w)

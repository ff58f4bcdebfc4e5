"""C12: quaternion products, inverses and vector rotation obey the algebra."""
import numpy as np
import xarray as xr
import rigid_body_motion as rbm
from quaternion import as_float_array, as_quat_array
from quaternion import quaternion as Q

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C12",
    "quaternion algebra",
    "random and special quaternions (unit, scaled over 12 decades, negated, "
    "axis-aligned, integer), arrays of 1-5 dimensions with the quaternion and "
    "spatial axes anywhere, singleton broadcasting, lists, float32/int/"
    "quaternion dtype; compared with an independent Hamilton product and "
    "rotation-matrix oracle plus the algebraic laws. Non-trivial: every case; "
    "signature = (function, shapes' rank, axes, container, scaling).",
    quick=48000, thorough=200000,
    assumptions=["non-zero quaternions"],
)
prop.require("monitor:product", "monitor:associative", "monitor:inverse",
             "monitor:rotated", "monitor:homomorphism", "monitor:undo",
             "monitor:length", "monitor:sign", "monitor:all-combinations",
             "monitor:accessor", "monitor:quaternion-dtype",
             "rotate:broadcast", "rotate:nonunit")


def quats(rng, shape, unit=None):
    q = G.quat(rng, shape)
    unit = rng.random() < 0.4 if unit is None else unit
    if not unit:
        m = rng.integers(3)
        q = q * (10.0 ** rng.uniform(-6, 6) if m == 0 else 1.0)
        if m:
            q = q * 10.0 ** rng.uniform(-1, 1, shape + (1,))
    return q, unit


def as_input(rng, q, qaxis):
    """q (..., 4) in some container; returns (input, dtype tag)."""
    m = rng.integers(4)
    if m == 0:
        return as_quat_array(np.ascontiguousarray(q)), "quaternion"
    arr = np.moveaxis(q, -1, qaxis) if q.ndim > 1 else q
    return G.dress(rng, arr), "float"


def back(res, tag, qaxis):
    if tag == "quaternion":
        assert np.asarray(res).dtype == Q
        return as_float_array(np.asarray(res))
    res = np.asarray(res)
    return np.moveaxis(res, qaxis, -1) if res.ndim > 1 else res


def nrm(q):
    return np.linalg.norm(q, axis=-1, keepdims=True)


def swap_axis(rng, nd):
    """Quaternion axis position of an array with nd dims in total."""
    return int(rng.integers(nd))


@prop.scenario(3)
def products(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 5))
    nd = G.rank(rng)
    shape = G.shape(rng, nd)
    shapes = [tuple(1 if rng.random() < 0.25 else x for x in shape)
              for _ in range(k)]
    pos = swap_axis(rng, nd + 1)
    quat = rng.random() < 0.3
    ragged = (quat or pos == nd) and rng.random() < 0.4
    if ragged:  # numpy broadcasting of different numbers of dimensions
        ctx.events["product:ragged"] += 1
        pos = nd
        shapes = [s[int(rng.integers(nd + 1)):] for s in shapes]
    qs = [quats(rng, s)[0] for s in shapes]
    if quat:
        ins = [as_quat_array(np.ascontiguousarray(q)) for q in qs]
        kw = {}
    else:
        ins = [G.dress(rng, np.swapaxes(q, pos, -1) if not ragged else q)
               for q in qs]
        kw = {} if pos == nd and rng.random() < 0.5 else {
            "qaxis": -1 if ragged else A.neg(rng, pos, nd + 1)}
    got = ctx.call(rbm.qmul, *ins, **kw)
    got = np.asarray(got)
    if quat:
        ctx.check(got.dtype == Q, "quaternion-dtype")
        got = as_float_array(got)
    else:
        got = got if ragged else np.swapaxes(got, pos, -1)
    want = qs[0]
    for q in qs[1:]:
        want = O.qmul(want, q)
    sc = np.prod(np.broadcast_arrays(*[nrm(q) for q in qs]), axis=0)
    ctx.close(got / sc, want / sc, "product", 1e-11, shapes=shapes, qaxis=pos)
    # associativity, through the library
    if k >= 3 and not quat:
        ab = ctx.call(rbm.qmul, ins[0], ins[1], **kw)
        r = ctx.call(rbm.qmul, ab, *ins[2:], **kw)
        bc = ctx.call(rbm.qmul, *ins[1:], **kw)
        r2 = ctx.call(rbm.qmul, ins[0], bc, **kw)
        if not ragged:
            r, r2 = np.swapaxes(r, pos, -1), np.swapaxes(r2, pos, -1)
        ctx.close(r / sc, want / sc, "associative", 1e-11)
        ctx.close(r2 / sc, want / sc, "associative", 1e-11)
    ctx.nontrivial("qmul", k, nd, pos, quat, ragged, tuple(s == shape for s in shapes))


@prop.scenario(2)
def inverses(ctx):
    rng = ctx.rng
    nd = G.rank(rng)
    shape = G.shape(rng, nd)
    q, unit = quats(rng, shape)
    if rng.random() < 0.1:
        q = np.round(rng.standard_normal(shape + (4,)) * 4)
        q[..., 0] += (np.abs(q).sum(-1) == 0)
        q = q.astype(rng.choice(["i8", "f4", "f8"])) if rng.random(
            ) < 0.5 else G.as_int(rng, q)[0]
        q[..., 0] += (q == 0).all(-1)
    pos = swap_axis(rng, nd + 1)
    want = O.qconj(q) / np.sum(np.asarray(q, float) ** 2, -1, keepdims=True)
    m = rng.integers(3)
    sc = 1 / nrm(np.asarray(q, float))
    if m == 0:
        r = ctx.call(rbm.qinv, as_quat_array(
            np.ascontiguousarray(q).astype(float)))
        ctx.check(np.asarray(r).dtype == Q, "quaternion-dtype")
        got = as_float_array(np.asarray(r))
    elif m == 1:
        kw = {} if pos == nd and rng.random() < 0.5 else {
            "qaxis": A.neg(rng, pos, nd + 1)}
        r = ctx.call(rbm.qinv, G.dress(rng, np.moveaxis(q, -1, pos)), **kw)
        got = np.moveaxis(np.asarray(r), pos, -1)
        one = ctx.call(rbm.qmul, np.moveaxis(np.asarray(q, float), -1, nd),
                       got)
        ctx.close(one, np.broadcast_to([1.0, 0, 0, 0], one.shape), "inverse",
                  1e-10)
    else:
        dims = ["d%d" % i for i in range(nd + 1)]
        qd = str(rng.choice(["quaternion_axis", "q"]))
        dims[pos] = qd
        da = xr.DataArray(np.moveaxis(q, -1, pos),
                          {qd: list("wxyz"), "c": 3}, dims, "ori", {"a": 1})
        if nd:
            da = da.assign_coords(
                lab=(dims[pos - 1], np.arange(da.shape[pos - 1])))
        before = da.copy(deep=True)
        kw = {} if qd == "quaternion_axis" and rng.random() < 0.5 else {
            "qdim": qd}
        r = ctx.call(da.rbm.qinv, **kw)
        ctx.check(da.identical(before), "accessor", "input changed")
        ctx.check(r.dims == da.dims and r.name == da.name
                  and r.attrs == da.attrs, "accessor", got=r)
        ctx.check(set(r.coords) == set(da.coords) and all(
            r.coords[c].identical(da.coords[c]) for c in da.coords),
            "accessor")
        got = np.moveaxis(r.values, pos, -1)
    ctx.close(got / sc, want / sc, "inverse", 1e-6 if q.dtype == np.float32
              else 1e-11, qaxis=pos)
    ctx.nontrivial("qinv", nd, pos, int(m), unit, str(q.dtype))


@prop.scenario(4)
def rotations(ctx):
    rng = ctx.rng
    nd = G.rank(rng)
    shape = G.shape(rng, nd)
    qs = tuple(1 if rng.random() < 0.25 else x for x in shape)
    vs = tuple(1 if rng.random() < 0.25 else x for x in shape)
    if qs != vs:
        ctx.events["rotate:broadcast"] += 1
    q, unit = quats(rng, qs)
    if not unit:
        ctx.events["rotate:nonunit"] += 1
    v = G.vec(rng, vs)
    if rng.random() < 0.1:
        v = G.whole(rng, v)
    pos, ax = swap_axis(rng, nd + 1), swap_axis(rng, nd + 1)
    tag = "quaternion" if rng.random() < 0.3 else "float"
    qi = as_quat_array(np.ascontiguousarray(q)) if tag == "quaternion" \
        else G.dress(rng, np.moveaxis(q, -1, pos))
    vi = G.dress(rng, np.moveaxis(v, -1, ax))
    kw = {}
    if ax != nd or rng.random() < 0.5:
        kw["axis"] = A.neg(rng, ax, nd + 1)
    if tag == "float" and (pos != nd or rng.random() < 0.5):
        kw["qaxis"] = A.neg(rng, pos, nd + 1)
    if rng.random() < 0.3:
        kw["one_to_one"] = True
    r = np.asarray(ctx.call(rbm.rotate_vectors, qi, vi, **kw))
    want = O.apply_R(O.q2R(q), v.astype(float))
    ctx.check(r.ndim == nd + 1, "rotated", f"shape {r.shape}")
    got = np.moveaxis(r, ax, -1)
    v = v.astype(float)
    sc = 1 + np.abs(v).max()
    ctx.close(got / sc, want / sc, "rotated", 1e-9, shapes=(qs, vs), axis=ax,
              qaxis=pos)
    ctx.close(nrm(got) / sc, np.broadcast_to(nrm(v), got.shape[:-1] + (1,))
              / sc, "length", 1e-9)
    # -q rotates identically
    if tag == "float":
        r2 = ctx.call(rbm.rotate_vectors, -np.moveaxis(q, -1, pos), vi, **kw)
        ctx.close(np.asarray(r2) / sc, r / sc, "sign", 1e-9)
    ctx.nontrivial("rotate", nd, pos, ax, tag, unit, qs == shape, vs == shape)


@prop.scenario(2)
def combinations(ctx):
    """one_to_one=False and a single quaternion."""
    rng = ctx.rng
    single = rng.random() < 0.4
    nq = 0 if single else int(rng.integers(0, 4))
    nv = int(rng.integers(0, 3))
    qs = tuple(int(x) for x in rng.integers(1, 4, nq))
    vs = tuple(int(x) for x in rng.integers(1, 4, nv))
    if nq and rng.random() < 0.3:
        qs = tuple(1 if rng.random() < 0.5 else x for x in qs)
    q, unit = quats(rng, qs)
    v = G.vec(rng, vs)
    pos, ax = swap_axis(rng, nq + 1), swap_axis(rng, nv + 1)
    kw = {"axis": A.neg(rng, ax, nv + 1)}
    if rng.random() < 0.4:
        qi = as_quat_array(np.ascontiguousarray(q))
    else:
        qi = G.dress(rng, np.moveaxis(q, -1, pos))
        kw["qaxis"] = A.neg(rng, pos, nq + 1)
    if not single or rng.random() < 0.5:
        kw["one_to_one"] = False
    r = np.asarray(ctx.call(rbm.rotate_vectors, qi,
                            G.dress(rng, np.moveaxis(v, -1, ax)), **kw))
    R = O.q2R(q).reshape(qs + (1,) * nv + (3, 3))
    want = np.moveaxis(O.apply_R(R, np.broadcast_to(v, qs + vs + (3,))), -1,
                       nq + ax)
    sc = 1 + np.abs(v).max()
    ctx.check(r.shape == want.shape, "all-combinations", f"shape {r.shape}",
              want=want.shape)
    ctx.close(r / sc, want / sc, "all-combinations", 1e-9)
    ctx.nontrivial("combi", nq, nv, pos, ax, single, unit)


@prop.scenario(2)
def laws(ctx):
    """Laws relating the functions to each other (library only)."""
    rng = ctx.rng
    n, = G.shape(rng, 1, 6)
    a, _ = quats(rng, (n,))
    b, _ = quats(rng, (n,))
    v = G.vec(rng, (n,))
    sc = 1 + np.abs(v).max()
    rot, mul, inv = rbm.rotate_vectors, rbm.qmul, rbm.qinv
    ab = ctx.call(rot, ctx.call(mul, a, b), v)
    a_b = ctx.call(rot, a, ctx.call(rot, b, v))
    ctx.close(ab / sc, a_b / sc, "homomorphism", 1e-9)
    ctx.close(ctx.call(rot, ctx.call(inv, a), ctx.call(rot, a, v)) / sc,
              v / sc, "undo", 1e-9)
    # (ab)^-1 = b^-1 a^-1
    l = ctx.call(inv, ctx.call(mul, a, b))
    r = ctx.call(mul, ctx.call(inv, b), ctx.call(inv, a))
    s = nrm(a) * nrm(b)
    ctx.close(l * s, r * s, "inverse", 1e-9)
    # cross products and dot products are preserved
    w = rng.standard_normal((n, 3))
    c1 = ctx.call(rot, a, np.cross(v, w))
    c2 = np.cross(ctx.call(rot, a, v), ctx.call(rot, a, w))
    ctx.close(c1 / sc, c2 / sc, "length", 1e-8)
    ctx.nontrivial("laws", n)

"""C13: qmean is the rotation average."""
import itertools

import numpy as np
import rigid_body_motion as rbm
from quaternion import as_float_array, as_quat_array
from quaternion import quaternion as Q

from .. import gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C13",
    "qmean",
    "clusters, spread-out sets, repeated and antipodal copies, random signs, "
    "pairs and uniform sets of quaternions in arrays of 1-5 dimensions with "
    "every subset of averaged axes and quaternion-axis position; the monitor "
    "evaluates the objective (sum of squared dot products) against an "
    "independent eigenvalue solution and random/locally perturbed "
    "competitors. Non-trivial: more than one distinct rotation averaged; "
    "signature = (ndim, axes, qaxis, container, kind of set).",
    quick=30000, thorough=150000,
    assumptions=["axis given together with a quaternion axis other than the "
                 "last is excluded for n-d input (its meaning is not defined)"],
)
prop.require("monitor:unit", "monitor:optimal", "monitor:equal-inputs",
             "monitor:order-sign", "monitor:left-equivariant",
             "monitor:right-equivariant", "monitor:midpoint",
             "monitor:containers", "axes:none", "axes:tuple", "axes:int",
             "set:large", "set:integer")


def objective(qs, m):
    """qs (..., n, 4), m (..., 4): mean squared dot product."""
    return np.mean(np.einsum("...ni,...i->...n", qs, m) ** 2, -1)


def best(qs):
    A = np.einsum("...ni,...nj->...ij", qs, qs) / qs.shape[-2]
    w = np.linalg.eigvalsh(A)
    return w[..., -1], w[..., -1] - w[..., -2]


def sample(rng, shape):
    m = rng.integers(5)
    if m == 0:  # tight cluster around any rotation
        q = O.qmul(G.quat(rng), O.rv2q(
            rng.standard_normal(shape + (3,)) * 10.0 ** rng.uniform(-6, -0.5)))
    elif m == 1:  # repeated values
        pool = G.quat(rng, 3)
        q = pool[rng.integers(3, size=shape)]
    else:
        q = rng.standard_normal(shape + (4,))
        q /= np.linalg.norm(q, axis=-1, keepdims=True)
    if rng.random() < 0.6:
        q = q * np.where(rng.random(shape) < 0.5, -1.0, 1.0)[..., None]
    return q, int(m)


def integer(ctx, q):
    """Integer multiples of rotations of one norm: products need a wider type."""
    rng = ctx.rng
    k = int(rng.choice([1, 1, 5, 7, 11, 25, 100, 181, 255, 2**12, 2**20, 2**30]))
    dt = next(d for d in ("i1", "i2", "i4", "i8") if np.iinfo(d).max >= k)
    pool = k * np.concatenate([np.eye(4), -np.eye(4)])
    if k % 5 == 0:
        pool = np.concatenate([pool, k // 5 * np.array(
            [[3, 4, 0, 0], [0, 3, 0, -4], [-4, 0, 3, 0], [1, 2, 2, 4]])])
    ctx.events["set:integer"] += 1
    return pool[rng.integers(len(pool), size=q.shape[:-1])].astype(dt), k


def gather(q, axes):
    """Averaged axes flattened to one axis before the quaternion axis."""
    nd = q.ndim - 1
    keep = [i for i in range(nd) if i not in axes]
    p = np.transpose(q, keep + list(axes) + [nd])
    return p.reshape(tuple(q.shape[i] for i in keep) + (-1, 4))


@prop.scenario(3)
def means(ctx):
    rng = ctx.rng
    nd = int(rng.choice([1, 2, 3, 4, 5], p=[0.25, 0.25, 0.25, 0.15, 0.1]))
    shape = G.shape(rng, nd, 6 if nd < 4 else 4, 0.02)
    if max(shape) > 20:
        ctx.events["set:large"] += 1
    q, kind = sample(rng, shape)
    quat = rng.random() < 0.3
    norm = 1
    if not quat and rng.random() < 0.12:
        q, norm = integer(ctx, q)
        kind = "integer"
    qaxis = nd
    mode = str(rng.choice(["none", "int", "tuple"]))
    if mode == "none":
        axes, kw = tuple(range(nd)), {}
        if rng.random() < 0.3:
            kw["axis"] = None
        if not quat:
            qaxis = int(rng.integers(nd + 1))
    elif mode == "int":
        a = int(rng.integers(nd))
        axes = (a,)
        kw = {"axis": a - nd if rng.random() < 0.4 else a}
    else:
        k = int(rng.integers(1, nd + 1))
        axes = tuple(int(x) for x in rng.permutation(nd)[:k])
        kw = {"axis": tuple(a - nd if rng.random() < 0.3 else a for a in axes)}
    ctx.events["axes:" + mode] += 1
    if quat:
        arr = as_quat_array(np.ascontiguousarray(q))
    else:
        arr = G.dress(rng, np.swapaxes(q, qaxis, -1))
        if qaxis != nd or rng.random() < 0.3:
            kw["qaxis"] = qaxis - (nd + 1) if rng.random() < 0.5 else qaxis
    got = np.asarray(ctx.call(rbm.qmean, arr, **kw))
    if quat:
        ctx.check(got.dtype == Q, "containers", "dtype")
        got = as_float_array(got)
    sets = gather(q / norm, sorted(axes))
    ctx.check(got.shape == sets.shape[:-2] + (4,), "containers",
              f"shape {got.shape}", want=sets.shape[:-2] + (4,))
    n = np.linalg.norm(got, axis=-1)
    ctx.close(n, np.ones_like(n), "unit", 1e-9)
    lam, gap = best(sets)
    ctx.close(objective(sets, got), lam, "optimal", 1e-9)
    # no competitor is better
    for s in (1.0, 0.1, 1e-3):
        c = got + s * rng.standard_normal(got.shape)
        c /= np.linalg.norm(c, axis=-1, keepdims=True)
        ctx.check(np.all(objective(sets, c) <= objective(sets, got) + 1e-9),
                  "optimal", "a perturbed rotation has a larger objective")
    if sets.shape[-2] > 1:
        ctx.nontrivial(nd, mode, tuple(sorted(axes)), qaxis, quat, kind)


@prop.scenario(2)
def invariances(ctx):
    rng = ctx.rng
    n, = G.shape(rng, 1, 9, 0.02)
    q, kind = sample(rng, (n,))
    lam, gap = best(q)
    m = np.asarray(ctx.call(rbm.qmean, q))
    # equal inputs
    e = np.tile(q[0], (n, 1)) * np.where(rng.random(n) < 0.5, -1, 1)[:, None]
    r = ctx.call(rbm.qmean, e)
    ctx.same_rotation(np.asarray(r), q[0], "equal-inputs", 1e-8)
    if gap < 1e-3:
        return
    tol = 1e-9 / gap + 1e-9
    p = q[rng.permutation(n)] * np.where(rng.random(n) < 0.5, -1, 1)[:, None]
    ctx.same_rotation(np.asarray(ctx.call(rbm.qmean, p)), m, "order-sign", tol)
    g = G.quat(rng)
    ctx.same_rotation(np.asarray(ctx.call(rbm.qmean, O.qmul(g, q))),
                      O.qmul(g, m), "left-equivariant", tol)
    ctx.same_rotation(np.asarray(ctx.call(rbm.qmean, O.qmul(q, g))),
                      O.qmul(m, g), "right-equivariant", tol)
    inv = ctx.call(rbm.qmean, O.qconj(q))
    ctx.same_rotation(np.asarray(inv), O.qconj(m), "order-sign", tol)
    # containers
    f = np.asarray(ctx.call(rbm.qmean, as_quat_array(q)))
    ctx.same_rotation(as_float_array(f), m, "containers", tol)
    t = np.asarray(ctx.call(rbm.qmean, q.reshape(n, 1, 4), axis=(0, 1)))
    ctx.same_rotation(t, m, "containers", tol)
    t = np.asarray(ctx.call(rbm.qmean, np.tile(q, (3, 1, 1)), axis=1))
    for x in t:
        ctx.same_rotation(x, m, "containers", tol)
    ctx.nontrivial("inv", n, kind)


@prop.scenario(1)
def midpoints(ctx):
    rng = ctx.rng
    a = G.quat(rng)
    rv = rng.standard_normal(3)
    ang = rng.uniform(0.0, 3.0)
    rv = rv / np.linalg.norm(rv) * ang
    b = O.qmul(a, O.rv2q(rv))
    mid = O.qmul(a, O.rv2q(rv / 2))
    for s, t in itertools.product((1, -1), (1, -1)):
        r = ctx.call(rbm.qmean, np.stack([s * a, t * b]))
        ctx.same_rotation(np.asarray(r), mid, "midpoint", 1e-6)
        r = ctx.call(rbm.qmean, [list(t * b), list(s * a)], axis=0)
        ctx.same_rotation(np.asarray(r), mid, "midpoint", 1e-6)
    ctx.nontrivial("mid", int(ang * 3))

"""C14: Euler angles give the composed axis rotations in the given order."""
import itertools

import numpy as np
import rigid_body_motion as rbm
from quaternion import as_float_array
from quaternion import quaternion as Q

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C14",
    "Euler angles",
    "random, huge, tiny, gimbal-lock and integer angles in arrays of 0-4 "
    "dimensions, all 6 orders, every subset of roll/pitch/yaw or an rpy array "
    "with the angle axis anywhere; compared as rotation matrices with the "
    "product of elementary rotation matrices. Non-trivial: at least one "
    "non-zero angle; signature = (argument form, order, shape, axis, output).",
    quick=60000, thorough=200000,
)
prop.require("monitor:rotation", "monitor:unit", "monitor:rpy-form",
             "monitor:quaternion-output", "angles:gimbal", "angles:large",
             "monitor:omitted", "monitor:compose")

ORDERS = ["".join(p) for p in itertools.permutations("rpy")]


def elem(axis, a):
    a = np.asarray(a, float)
    c, s = np.cos(a), np.sin(a)
    R = np.zeros(a.shape + (3, 3)) + np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R[..., i, i], R[..., j, j] = c, c
    R[..., i, j], R[..., j, i] = -s, s
    return R


def compose(order, rpy):
    R = np.eye(3)
    for ch in order:
        a = rpy["rpy".index(ch)]
        if a is not None:
            R = R @ elem("rpy".index(ch), a)
    return R


def angles(ctx, shape):
    rng = ctx.rng
    m = rng.integers(6)
    a = rng.uniform(-np.pi, np.pi, shape)
    if m == 0:
        ctx.events["angles:large"] += 1
        a = rng.uniform(-60, 60, shape)
    elif m == 1:
        ctx.events["angles:gimbal"] += 1
        a = np.asarray(rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, -np.pi,
                                   2 * np.pi], shape), float)
    elif m == 2:
        a = a * 10.0 ** rng.uniform(-9, -2)
    elif m == 3:
        a = G.whole(rng, np.asarray(rng.integers(-9, 10, shape)))
    elif m == 4:
        a = a.astype(np.float32)
    return a


@prop.scenario(2)
def separate(ctx):
    rng = ctx.rng
    nd = G.rank(rng)
    shape = G.shape(rng, nd)
    names = ["roll", "pitch", "yaw"]
    use = [rng.random() < 0.7 for _ in names]
    if not any(use):
        use[rng.integers(3)] = True
    vals = [angles(ctx, shape) if u else None for u in use]
    order = str(rng.choice(ORDERS))
    kw = {n: (float(v) if nd == 0 and rng.random() < 0.5 else G.dress(rng, v))
          for n, v in zip(names, vals) if v is not None}
    keys = list(kw)
    rng.shuffle(keys)
    kw = {k: kw[k] for k in keys}
    if order != "rpy" or rng.random() < 0.5:
        kw["order"] = order
    quat = rng.random() < 0.3
    if quat:
        kw["return_quaternion"] = True
    got = ctx.call(rbm.from_euler_angles, **kw)
    if quat:
        ctx.check(isinstance(got, Q) or np.asarray(got).dtype == Q,
                  "quaternion-output")
        got = as_float_array(np.asarray(got))
    got = np.asarray(got)
    ctx.check(got.shape == shape + (4,), "rotation", f"shape {got.shape}")
    n = np.linalg.norm(got, axis=-1)
    f4 = any(v is not None and v.dtype == np.float32 for v in vals)
    ctx.close(n, np.ones_like(n), "unit", 1e-5 if f4 else 1e-9)
    want = np.broadcast_to(compose(order, vals), shape + (3, 3))
    ctx.close(O.q2R(got), want, "rotation", 1e-5 if f4 else 1e-8, order=order,
              angles=vals)
    if not all(use):
        full = {n: (np.zeros(shape) if v is None else v)
                for n, v in zip(names, vals)}
        r = ctx.call(rbm.from_euler_angles, order=order, **full)
        ctx.close(O.q2R(r), O.q2R(got), "omitted", 1e-5 if f4 else 1e-9)
    ctx.nontrivial("separate", tuple(use), order, nd, quat,
                   [str(v.dtype) for v in vals if v is not None])


@prop.scenario(2)
def array(ctx):
    rng = ctx.rng
    nd = G.rank(rng)
    shape = G.shape(rng, nd)
    rpy = angles(ctx, shape + (3,))
    ax = int(rng.integers(nd + 1))
    order = str(rng.choice(ORDERS))
    kw = {}
    if ax != nd or rng.random() < 0.5:
        kw["axis"] = A.neg(rng, ax, nd + 1)
    if order != "rpy" or rng.random() < 0.5:
        kw["order"] = order
    quat = rng.random() < 0.3
    if quat:
        kw["return_quaternion"] = True
    inp = G.dress(rng, np.moveaxis(rpy, -1, ax) if not quat
                  else np.swapaxes(rpy, -1, ax))
    if rng.random() < 0.5:
        got = ctx.call(rbm.from_euler_angles, inp, **kw)
    else:
        got = ctx.call(rbm.from_euler_angles, rpy=inp, **kw)
    if quat:
        got = as_float_array(np.asarray(got))
        ctx.events["monitor:quaternion-output"] += 1
    else:
        got = np.moveaxis(np.asarray(got), ax, -1)
    ctx.check(got.shape == shape + (4,), "rpy-form", f"shape {got.shape}",
              want=shape + (4,))
    n = np.linalg.norm(got, axis=-1)
    tol = 1e-5 if rpy.dtype == np.float32 else 1e-8
    ctx.close(n, np.ones_like(n), "unit", tol)
    want = compose(order, np.moveaxis(rpy, -1, 0))
    ctx.close(O.q2R(got), want, "rpy-form", tol, order=order, axis=ax,
              rpy=rpy)
    ctx.nontrivial("array", order, nd, ax, quat, str(rpy.dtype))


@prop.scenario(1)
def composition(ctx):
    """The order means what qmul means."""
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    v = {k: angles(ctx, (n,)) for k in ("roll", "pitch", "yaw")}
    order = str(rng.choice(ORDERS))
    got = ctx.call(rbm.from_euler_angles, order=order, **v)
    full = {"r": "roll", "p": "pitch", "y": "yaw"}
    parts = [ctx.call(rbm.from_euler_angles, **{full[c]: v[full[c]]})
             for c in order]
    q = ctx.call(rbm.qmul, *parts)
    ctx.close(O.q2R(got), O.q2R(q), "compose", 1e-5)
    # the inverse has negated angles in reverse order
    inv = ctx.call(rbm.from_euler_angles, order=order[::-1],
                   **{k: -1.0 * x for k, x in v.items()})
    ctx.close(O.q2R(inv), np.swapaxes(O.q2R(got), -1, -2), "compose", 1e-5)
    ctx.nontrivial("compose", order, n)

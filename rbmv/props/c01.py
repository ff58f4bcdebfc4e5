"""C01: static lookups compose the tree's rigid transforms along the path."""
import numpy as np
import rigid_body_motion as rbm

from .. import gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C01",
    "static composition",
    "random static trees (chain/star/deep/random, 1-14 frames, inverse flags, "
    "all constructors, list/strided/read-only/Fortran containers, special and "
    "tiny rotations, registered or anonymous frames); for many ordered pairs "
    "the recorded lookup is compared with a matrix-only oracle. Non-trivial: "
    "path with at least one frame; signature = (shape, #up, #down, inverse "
    "flags on the path, API form).",
    quick=16000, thorough=200000,
    assumptions=["rotations given to frames are unit quaternions"],
)
prop.require("monitor:translation", "monitor:rotation", "monitor:dataset",
             "monitor:self-lookup", "monitor:matrix-frame", "frame:static-inverse", "branch:up-down")


def pair_checks(ctx, frames, shape, a, b):
    rng = ctx.rng
    t, R, _ = O.lookup(a, b)
    up, down = O.path(a, b)
    scale = 1.0 + max([np.abs(f.t).max() for f in up + down] + [0])
    form = int(rng.integers(6))
    ra, rb = G.ref(ctx, a), G.ref(ctx, b)
    ts = None
    if form == 0:
        out = ctx.call(rbm.lookup_transform, ra, rb)
        ctx.check(isinstance(out, tuple) and len(out) == 2, "return-arity")
        gt, gq = out
    elif form == 1:
        gt, gq, ts = ctx.call(rbm.lookup_transform, ra, rb,
                              return_timestamps=True)
    elif form == 2:
        gt, gq, ts = ctx.call(a.obj.lookup_transform, rb)
    elif form == 3:
        gt, gq, ts = ctx.call(rbm.lookup_pose, ra, rb, return_timestamps=True)
    elif form == 4:
        pose = rng.random() < 0.5
        f = rbm.lookup_pose if pose else rbm.lookup_transform
        ds = ctx.call(f, ra, rb, as_dataset=True)
        names = ("position", "orientation") if pose else (
            "translation", "rotation")
        ctx.check(set(ds.data_vars) == set(names), "dataset",
                  got=list(ds.data_vars))
        ctx.check(ds[names[0]].dims == ("cartesian_axis",), "dataset")
        ctx.check(ds[names[1]].dims == ("quaternion_axis",), "dataset")
        gt, gq = ds[names[0]].values, ds[names[1]].values
    else:
        gt, gq, ts = ctx.call(a.obj.get_transformation, rb)
    ctx.check(ts is None, "static-timestamps", got=ts)
    ctx.close(np.asarray(gt) / scale, t / scale, "translation", 1e-9,
              pair=(a.name, b.name))
    gq = np.asarray(gq, float)
    ctx.check(gq.shape == (4,), "rotation", "shape", got=gq)
    ctx.close(np.linalg.norm(gq), 1.0, "rotation", 1e-9)
    ctx.close(O.q2R(gq), R, "rotation", 1e-9, pair=(a.name, b.name))
    if a is b:
        ctx.events["monitor:self-lookup"] += 1
    if up and down:
        ctx.events["branch:up-down"] += 1
    if up or down:
        ctx.nontrivial(shape, len(up), len(down),
                       tuple(f.inverse for f in up + down), form)


@prop.scenario(3)
def trees(ctx):
    frames, _, shape = G.tree(ctx, rbm, n=int(ctx.rng.integers(1, 15)))
    ctx.describe(shape=shape, parents=[
        (f.name, f.parent and f.parent.name, f.inverse) for f in frames])
    for _ in range(8):
        a = frames[ctx.rng.integers(len(frames))]
        b = frames[ctx.rng.integers(len(frames))]
        pair_checks(ctx, frames, shape, a, b)
    a = frames[ctx.rng.integers(len(frames))]
    pair_checks(ctx, frames, shape, a, a)


@prop.scenario(1)
def deep_chain(ctx):
    """Long chains: errors of a single step would compound."""
    n = int(ctx.rng.integers(15, 40))
    frames, _, shape = G.tree(ctx, rbm, n=n, shape="chain", scale=1.0)
    ctx.describe(n=n)
    for a, b in ((frames[-1], frames[0]), (frames[0], frames[-1])):
        pair_checks(ctx, frames, "deep", a, b)
    i, j = sorted(ctx.rng.integers(0, n, 2))
    pair_checks(ctx, frames, "deep", frames[i], frames[j])


@prop.scenario(1)
def integer_input(ctx):
    """Integer-typed transforms (axis-aligned quaternions) are not truncated."""
    rng = ctx.rng
    r = G.root(ctx, rbm)
    frames = [r]
    for _ in range(int(rng.integers(1, 5))):
        p = frames[rng.integers(len(frames))]
        t = rng.integers(-5, 6, 3)
        q = np.zeros(4, int)
        q[rng.integers(4)] = rng.choice([-1, 1])
        inv = bool(rng.random() < 0.5)
        tt = t if rng.random() < 0.5 else t.tolist()
        qq = q if rng.random() < 0.5 else q.tolist()
        m = None
        obj = ctx.call(rbm.ReferenceFrame, None, parent=p.obj, translation=tt,
                       rotation=qq, inverse=inv)
        te, qe = G.invert(t, q) if inv else (t, q)
        m = O.Frame(None, p, te, qe, None, False, obj)
        m.reg, m.inverse = False, inv
        frames.append(m)
    for _ in range(4):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        pair_checks(ctx, frames, "int", a, b)


@prop.scenario(1)
def rotation_matrices(ctx):
    """Frames from rotation matrices, half turns and tiny angles included."""
    rng = ctx.rng
    frames = [G.root(ctx, rbm)]
    for _ in range(int(rng.integers(2, 7))):
        p = frames[rng.integers(len(frames))]
        ax = rng.standard_normal(3)
        if rng.random() < 0.3:
            ax[rng.integers(3)] = 0.0
        if rng.random() < 0.3:
            ax = np.sign(ax)
        ax /= np.linalg.norm(ax)
        ang = rng.choice([np.pi, np.pi - 10.0 ** rng.uniform(-12, -1),
                          10.0 ** rng.uniform(-12, -1), 2 * np.pi / 3,
                          np.pi / 2, rng.uniform(-np.pi, np.pi)])
        K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]],
                      [-ax[1], ax[0], 0]])
        R = np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K
        inv = bool(rng.random() < 0.4)
        mat = G.dress(rng, R)
        obj = ctx.call(rbm.ReferenceFrame.from_rotation_matrix, mat,
                       p.name if p.reg else p.obj, G.fresh_name("rm"), inv)
        reg = bool(rng.random() < 0.5)
        if reg:
            ctx.call(obj.register)
        m = O.Frame(obj.name, p, np.zeros(3), _mat2q(R.T if inv else R), None,
                    False, obj)
        m.reg, m.inverse = reg, inv
        frames.append(m)
        # the matrix itself is the map from the new frame to its parent
        x = rng.standard_normal((2, 3))
        y = ctx.call(rbm.transform_vectors, x, into=p.obj, outof=obj)
        ctx.close(y, x @ (R.T if inv else R).T, "matrix-frame", 1e-9,
                  angle=ang, axis=ax)
    for _ in range(4):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        pair_checks(ctx, frames, "matrix", a, b)


@prop.scenario(1)
def point_mapping(ctx):
    """The looked-up numbers map coordinates of physical points: every frame
    is placed by a world pose, and the same physical point has coordinates
    in every frame."""
    rng = ctx.rng
    r = G.root(ctx, rbm)
    frames, poses = [r], {id(r): (np.zeros(3), np.eye(3))}
    for _ in range(int(rng.integers(2, 7))):
        p = frames[rng.integers(len(frames))]
        # world pose of new frame
        tw, Rw = G.vec(rng, (), 5.0), O.q2R(G.quat(rng))
        pt, pR = poses[id(p)]
        Rrel, trel = pR.T @ Rw, pR.T @ (tw - pt)
        inv = bool(rng.random() < 0.5)
        # quaternion of the relative rotation, built from its matrix
        q = _mat2q(Rrel)
        if inv:
            t_, q_ = G.invert(trel, q)
        else:
            t_, q_ = trel, q
        obj = ctx.call(rbm.ReferenceFrame, G.fresh_name("pm"), parent=p.obj,
                       translation=t_, rotation=q_, inverse=inv)
        m = O.Frame(obj.name, p, trel, q, None, False, obj)
        m.reg, m.inverse = False, inv
        frames.append(m)
        poses[id(m)] = (tw, Rw)
    X = G.vec(rng, 5, 10.0)  # physical points in world coordinates
    for _ in range(4):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        (ta, Ra), (tb, Rb) = poses[id(a)], poses[id(b)]
        xa, xb = (X - ta) @ Ra, (X - tb) @ Rb
        t, q = ctx.call(rbm.lookup_transform, a.obj, b.obj)
        ctx.close(xa @ O.q2R(np.asarray(q)).T + t, xb, "point-mapping", 1e-8)
        if a is not b:
            ctx.nontrivial("pm", len(a.ancestors()), len(b.ancestors()))


def _mat2q(R):
    """Quaternion of a rotation matrix by eigen-decomposition."""
    K = np.empty((4, 4))
    K[0] = [R[0, 0] + R[1, 1] + R[2, 2], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0],
            R[1, 0] - R[0, 1]]
    K[1] = [0, R[0, 0] - R[1, 1] - R[2, 2], R[0, 1] + R[1, 0],
            R[0, 2] + R[2, 0]]
    K[2] = [0, 0, R[1, 1] - R[0, 0] - R[2, 2], R[1, 2] + R[2, 1]]
    K[3] = [0, 0, 0, R[2, 2] - R[0, 0] - R[1, 1]]
    K = np.triu(K) + np.triu(K, 1).T
    w, v = np.linalg.eigh(K)
    q = v[:, -1]
    return q / np.linalg.norm(q)

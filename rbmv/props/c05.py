"""C05: transforms are invertible, transitive isometries (metamorphic)."""
import numpy as np
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C05",
    "isometry, inverse, transitivity",
    "random trees (static, continuous, discrete), random triples of frames and "
    "random arrays; monitors compare library results with each other only: "
    "round trip, direct vs via an intermediate frame, pairwise distances, "
    "angles, triple products, quaternion/vector consistency, lookup inverse. "
    "Non-trivial: path with at least one frame; signature = (kind, path kinds, "
    "via on path, static/timed, relation checked).",
    quick=12000, thorough=120000,
    assumptions=["moving frames: compared at the timestamps kept by all the "
                 "transforms involved"],
)
prop.require("monitor:round-trip", "monitor:transitive", "monitor:distance",
             "monitor:length", "monitor:angle", "monitor:handedness",
             "monitor:quat-vector", "monitor:lookup-inverse",
             "moving:compared")


def tr(ctx, kind, arr, a, b, ts):
    f = getattr(rbm, "transform_" + kind)
    if ts is None:
        return ctx.call(f, arr, into=G.ref(ctx, b), outof=G.ref(ctx, a)), None
    if len(ts) == 0:  # nothing left to transform
        return arr, ts
    y, t = ctx.call(f, arr, into=G.ref(ctx, b), outof=G.ref(ctx, a),
                    timestamps=ts, return_timestamps=True)
    return np.asarray(y), np.asarray(t)


def world(ctx):
    rng = ctx.rng
    kinds = [("static",), ("static", "moving"),
             ("static", "moving", "discrete")][rng.integers(3)]
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(2, 7)), kinds=kinds)
    a, b, c = (frames[rng.integers(len(frames))] for _ in range(3))
    static = kinds == ("static",) and rng.random() < 0.7
    ts = None if static else A.array_clock(rng, clock, frames)
    pk = tuple(sorted({f.kind for f in sum(O.path(a, b), [])}))
    return frames, a, b, c, ts, pk


def canon(ctx, kind, ts, extra=None):
    x, _ = A.canonical(ctx.rng, kind, None if ts is None else len(ts), extra,
                       "f8")
    return x


def pick(x, ts, keep):
    if ts is None:
        return x
    return x[np.isin(ts, keep)]


def rot_or_vec(ctx, kind, got, want, scale, mech, tol=1e-8):
    if kind == "quaternions":
        ctx.check(np.shape(got) == np.shape(want), mech, "shape")
        ctx.close(O.q2R(got), O.q2R(want), mech, tol * 10)
    else:
        ctx.close(np.asarray(got) / scale, np.asarray(want) / scale, mech, tol)


@prop.scenario(2)
def round_trip(ctx):
    frames, a, b, c, ts, pk = world(ctx)
    for kind in ("points", "vectors", "quaternions"):
        x = canon(ctx, kind, ts)
        y, t1 = tr(ctx, kind, x, a, b, ts)
        z, t2 = tr(ctx, kind, y, b, a, t1)
        if ts is not None:
            ctx.close(t2, t1, "round-trip", message="timestamps")
            if len(t2):
                ctx.events["moving:compared"] += 1
        sc = A.scale_of(a, b, x)
        rot_or_vec(ctx, kind, z, pick(x, ts, t1), sc, "round-trip")
        if pk:
            ctx.nontrivial("rt", kind, pk, ts is None, x.ndim)
    t1_, q1, s1 = ctx.call(rbm.lookup_transform, G.ref(ctx, a), G.ref(ctx, b),
                           return_timestamps=True)
    t2_, q2, s2 = ctx.call(rbm.lookup_transform, G.ref(ctx, b), G.ref(ctx, a),
                           return_timestamps=True)
    if s1 is None:
        ctx.check(s2 is None, "lookup-inverse")
        m1 = m2 = Ellipsis
    else:
        both = np.intersect1d(s1, s2)
        m1, m2 = np.isin(s1, both), np.isin(s2, both)
    R1, R2 = O.q2R(q1[m1]), O.q2R(q2[m2])
    ctx.close(R1 @ R2, np.zeros_like(R1) + np.eye(3), "lookup-inverse", 1e-7)
    sc = A.scale_of(a, b, np.zeros(3))
    ctx.close((O.apply_R(R1, t2_[m2]) + t1_[m1]) / sc, np.zeros_like(t1_[m1]),
              "lookup-inverse", 1e-7)


@prop.scenario(2)
def transitive(ctx):
    frames, a, b, c, ts, pk = world(ctx)
    for kind in ("points", "vectors", "quaternions"):
        x = canon(ctx, kind, ts)
        y, t1 = tr(ctx, kind, x, a, b, ts)
        z, t2 = tr(ctx, kind, y, b, c, t1)
        d, t3 = tr(ctx, kind, x, a, c, ts)
        sc = A.scale_of(a, b, x) + A.scale_of(b, c, x)
        if ts is None:
            rot_or_vec(ctx, kind, z, d, sc, "transitive")
        else:
            both = np.intersect1d(t2, t3)
            if len(both):
                ctx.events["moving:compared"] += 1
            ctx.check(len(both) == len(t2), "transitive",
                      "kept range not nested", t2=t2, t3=t3)
            rot_or_vec(ctx, kind, z, d[np.isin(t3, both)], sc, "transitive",
                       1e-7)
        if pk:
            ctx.nontrivial("tr", kind, pk, ts is None,
                           len(sum(O.path(b, c), [])))


@prop.scenario(2)
def isometry(ctx):
    frames, a, b, c, ts, pk = world(ctx)
    k = int(ctx.rng.integers(3, 6))
    x = canon(ctx, "points", ts, (k,))
    y, t1 = tr(ctx, "points", x, a, b, ts)
    x0 = pick(x, ts, t1)
    y = np.asarray(y)
    sc = A.scale_of(a, b, x)

    def dist(p):
        return np.linalg.norm(p[..., :, None, :] - p[..., None, :, :], axis=-1)

    ctx.check(y.shape == x0.shape, "distance", "shape")
    ctx.close(dist(y) / sc, dist(x0) / sc, "distance", 1e-9)
    v = canon(ctx, "vectors", ts, (k,))
    w, t1 = tr(ctx, "vectors", v, a, b, ts)
    v0, w = pick(v, ts, t1), np.asarray(w)
    s = np.abs(v).max() + 1e-300
    v0, w = v0 / s, w / s
    ctx.check(w.shape == v0.shape, "length", "shape")
    ctx.close(np.linalg.norm(w, axis=-1), np.linalg.norm(v0, axis=-1),
              "length", 1e-9)
    ctx.close(np.einsum("...ik,...jk->...ij", w, w),
              np.einsum("...ik,...jk->...ij", v0, v0), "angle", 1e-9)
    # handedness: signed volumes keep their sign and size, for points too
    ctx.close(np.linalg.det(w[..., :3, :]), np.linalg.det(v0[..., :3, :]),
              "handedness", 1e-9)
    if k > 3:
        e = (y[..., 1:4, :] - y[..., :1, :]) / sc
        f = (x0[..., 1:4, :] - x0[..., :1, :]) / sc
        ctx.close(np.linalg.det(e), np.linalg.det(f), "handedness", 1e-9)
    if pk:
        ctx.nontrivial("iso", pk, ts is None, k)


@prop.scenario(1)
def quat_vector(ctx):
    frames, a, b, c, ts, pk = world(ctx)
    ex = tuple(int(i) for i in ctx.rng.integers(1, 4, ctx.rng.integers(2)))
    q = canon(ctx, "quaternions", ts, ex)
    v = canon(ctx, "vectors", ts, ex)
    tq, t1 = tr(ctx, "quaternions", q, a, b, ts)
    tv, t2 = tr(ctx, "vectors", O.apply_R(O.q2R(q), v), a, b, ts)
    v0 = pick(v, ts, t1)
    sc = 1 + np.abs(v).max()
    tq = np.asarray(tq)
    ctx.check(tq.shape[:-1] == v0.shape[:-1], "quat-vector", "shape")
    r = ctx.call(rbm.rotate_vectors, tq, v0) if v0.size else v0
    ctx.close(np.asarray(r) / sc, np.asarray(tv) / sc, "quat-vector", 1e-8)
    if pk:
        ctx.nontrivial("qv", pk, ts is None, ex)


@prop.scenario(0.1)
def large(ctx):
    """Round trips and lengths for arrays of realistic size."""
    rng = ctx.rng
    frames, clock, _ = G.tree(ctx, rbm, n=int(rng.integers(1, 5)),
                              kinds=[("static",), ("static", "moving")][
                                  rng.integers(2)], window=(0.0, 100.0),
                              nmin=10, nmax=1000)
    a, b = (frames[rng.integers(len(frames))] for _ in range(2))
    n = int(10 ** rng.uniform(2, 4.3))
    up, down = O.path(a, b)
    ts = None
    if any(f.kind != "static" for f in up + down):
        ts = clock.make(rng.uniform(-5, 30), np.full(
            n - 1, max(rng.uniform(50, 150) / n, 0.012)))
    pk = tuple(sorted({f.kind for f in up + down}))
    for kind in ("points", "vectors", "quaternions"):
        x = canon(ctx, kind, ts, () if ts is not None else (n,))
        y, t1 = tr(ctx, kind, x, a, b, ts)
        if ts is not None and len(t1) == 0:
            continue
        z, _ = tr(ctx, kind, y, b, a, t1)
        sc = A.scale_of(a, b, x)
        x0 = pick(x, ts, t1)
        rot_or_vec(ctx, kind, z, x0, sc, "round-trip", 1e-9)
        s = np.abs(x0).max()
        if kind == "vectors":
            ctx.close(np.linalg.norm(np.asarray(y) / s, axis=-1),
                      np.linalg.norm(x0 / s, axis=-1), "length", 1e-11)
        if kind == "points":
            i = rng.permutation(len(x0))
            y = np.asarray(y)
            if ts is None:
                ctx.close(np.linalg.norm(y - y[i], axis=-1) / sc,
                          np.linalg.norm(x0 - x0[i], axis=-1) / sc, "distance",
                          1e-10)
    if pk:
        ctx.nontrivial("large", pk, ts is None, int(np.log10(n)))

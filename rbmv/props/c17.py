"""C17: alignment estimators return optimal proper rigid transforms."""
import numpy as np
import xarray as xr
import rigid_body_motion as rbm

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C17",
    "alignment estimators",
    "point sets that are noisy, exact, unrelated, planar, collinear, mirrored, "
    "tiny/huge, with offsets; pairs of vectors that are random, parallel, "
    "antiparallel, nearly so, axis-aligned; well-separated clouds displaced "
    "slightly, permuted, with outliers or with an initial guess; all layouts "
    "and containers. The monitors evaluate the objective against Horn's "
    "quaternion solution and perturbed competitors, and check that the result "
    "is a proper rotation. Non-trivial: every case; signature = (estimator, "
    "kind of set, layout, container).",
    quick=32000, thorough=120000,
    assumptions=["iterative_closest_point: displacement below half the point "
                 "separation"],
)
prop.require("monitor:fit-rotation", "monitor:fit-transform",
             "monitor:exact-recovery", "monitor:turns-onto",
             "monitor:smallest-angle", "monitor:icp-recovery",
             "monitor:icp-init", "monitor:icp-improves", "monitor:icp-step",
             "set:mirrored", "set:planar", "set:collinear", "pair:antiparallel",
             "pair:parallel", "monitor:dataarray",
             "set:large", "set:integer", "pair:integer", "monitor:icp-units")


def horn(a, b):
    """Maximum of sum b.(R a) over proper rotations (Horn's 4x4 matrix)."""
    S = a.T @ b
    (xx, xy, xz), (yx, yy, yz), (zx, zy, zz) = S
    N = np.array([
        [xx + yy + zz, yz - zy, zx - xz, xy - yx],
        [yz - zy, xx - yy - zz, xy + yx, zx + xz],
        [zx - xz, xy + yx, -xx + yy - zz, yz + zy],
        [xy - yx, zx + xz, yz + zy, -xx - yy + zz]])
    return np.linalg.eigvalsh(N)[-1]


def cloud(ctx, n):
    """(v1, v2, R, t or None, kind) with v2 ~ R v1 + t."""
    rng = ctx.rng
    v1 = rng.standard_normal((n, 3)) * 10.0 ** rng.integers(-8, 9)
    kind = str(rng.choice(["exact", "noisy", "unrelated", "mirrored",
                           "planar", "collinear", "repeated"]))
    if kind == "planar":
        v1[:, 2] = 0
        v1 = O.apply_R(O.q2R(G.quat(rng)), v1)
    elif kind == "collinear":
        v1 = np.outer(rng.standard_normal(n), v1[0])
    elif kind == "repeated":
        v1 = v1[rng.integers(min(n, 3), size=n)]
    sc = np.abs(v1).max()
    R = O.q2R(G.quat(rng))
    t = rng.standard_normal(3) * sc * 10.0 ** rng.integers(-1, 2)
    if kind == "mirrored":
        v2 = v1 @ np.diag([1.0, 1.0, -1.0]) @ R.T
    elif kind == "unrelated":
        v2 = rng.standard_normal((n, 3)) * sc
    else:
        v2 = v1 @ R.T
    if kind == "noisy" or (kind in ("planar", "collinear", "mirrored")
                           and rng.random() < 0.3):
        v2 = v2 + rng.standard_normal((n, 3)) * sc * 10.0 ** rng.uniform(-4, 0)
        kind += "+noise" if kind != "noisy" else ""
    ctx.events["set:" + kind.split("+")[0]] += 1
    return v1, v2, R, t, kind


def layout(rng, v, shape, ax):
    """(n, 3) points as an array of shape with the spatial axis at ax."""
    return np.moveaxis(v.reshape(shape + (3,)), -1, ax)


@prop.scenario(4)
def best_fit(ctx):
    rng = ctx.rng
    lead = G.shape(rng, int(rng.integers(1, 4)), big=0.01)
    n = int(np.prod(lead))
    if n > 100:
        ctx.events["set:large"] += 1
    v1, v2, R, t, kind = cloud(ctx, n)
    ax = int(rng.integers(len(lead) + 1))
    full = rng.random() < 0.55
    if full:
        v2 = v2 + t
    if rng.random() < 0.12:
        v1, v2 = G.as_int(rng, v1, v2, cap=1e12)
        kind = "integer"
        ctx.events["set:integer"] += 1
    a, b = layout(rng, v1, lead, ax), layout(rng, v2, lead, ax)
    fn = rbm.best_fit_transform if full else rbm.best_fit_rotation
    kw = {}
    da = rng.random() < 0.35
    if da:
        dims = ["d%d" % i for i in range(a.ndim)]
        dims[ax] = "cartesian_axis"
        c = {"cartesian_axis": list("xyz")} if rng.random() < 0.6 else {}
        x1 = xr.DataArray(a, c, dims)
        x2 = xr.DataArray(b, c, dims) if rng.random() < 0.6 else b
        if ax != a.ndim - 1 or rng.random() < 0.5:
            kw["dim"] = "cartesian_axis"
    else:
        x1, x2 = G.dress(rng, a), G.dress(rng, b)
        if ax != a.ndim - 1 or rng.random() < 0.5:
            kw["axis"] = A.neg(rng, ax, a.ndim)
    res = ctx.call(fn, x1, x2, **kw)
    if full:
        got_t, q = res
        mech = "fit-transform"
    else:
        got_t, q = np.zeros(3), res
        mech = "fit-rotation"
    if da:
        ctx.check(isinstance(q, xr.DataArray)
                  and q.dims == ("quaternion_axis",)
                  and list(q.quaternion_axis.values) == list("wxyz"),
                  "dataarray")
        if full:
            ctx.check(isinstance(got_t, xr.DataArray)
                      and got_t.dims == ("cartesian_axis",)
                      and list(got_t.cartesian_axis.values) == list("xyz"),
                      "dataarray")
    q, got_t = np.asarray(q), np.asarray(got_t)
    v1, v2 = v1.astype(float), v2.astype(float)
    ctx.check(q.shape == (4,) and got_t.shape == (3,), mech, "shape")
    ctx.close(np.linalg.norm(q), 1.0, mech, 1e-9, "unit norm")
    Rg = O.q2R(q)
    c1 = v1 - v1.mean(0) if full else v1
    c2 = v2 - v2.mean(0) if full else v2
    best = (c1**2).sum() + (c2**2).sum() - 2 * horn(c1, c2)
    ref = (c1**2).sum() + (c2**2).sum() + (v2**2).sum()

    def cost(R, t):
        return ((v1 @ R.T + t - v2) ** 2).sum()

    got = cost(Rg, got_t)
    ctx.check(got - best <= 1e-8 * ref, mech,
              f"not optimal: {got} > {best}", kind=kind, q=q, t=got_t)
    for s in (0.3, 1e-2):
        dR = O.q2R(O.rv2q(rng.standard_normal(3) * s))
        ctx.check(cost(dR @ Rg, got_t) >= got - 1e-8 * ref, mech,
                  "a perturbed rotation fits better", kind=kind)
    if kind == "exact" and n >= 3:
        if np.linalg.svd(c1.T @ c1)[1][1] > 1e-4 * np.sum(c1**2):
            ctx.close(Rg, R, "exact-recovery", 1e-5)
            if full:
                sc = np.abs(v2).max()
                ctx.close(got_t / sc, t / sc, "exact-recovery", 1e-5)
    ctx.nontrivial(full, kind, ax, len(lead), da, min(n, 4))


@prop.scenario(3)
def shortest(ctx):
    rng = ctx.rng
    lead = G.shape(rng, int(rng.integers(0, 3)))
    n = int(np.prod(lead, dtype=int))
    v1 = rng.standard_normal((n, 3))
    v2 = rng.standard_normal((n, 3))
    for i in range(n):
        m = rng.integers(9)
        if m == 0:
            v2[i] = v1[i]
            ctx.events["pair:parallel"] += 1
        elif m == 1:
            v2[i] = -v1[i] * rng.uniform(0.1, 3)
            ctx.events["pair:antiparallel"] += 1
        elif m == 2:
            v1[i] = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
            v2[i] = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
        elif m == 3:
            v2[i] = -v1[i] + 10.0 ** rng.uniform(-9, -2) * v2[i]
        elif m == 4:
            v2[i] = v1[i] + 10.0 ** rng.uniform(-9, -2) * v2[i]
        elif m == 5:
            v1[i, rng.integers(3)] = 0
            v2[i] = -v1[i]
    v1 = v1 * 10.0 ** rng.integers(-12, 13)
    v2 = v2 * 10.0 ** rng.integers(-12, 13)
    if n and rng.random() < 0.12:
        v1, v2 = G.as_int(rng, v1, v2)
        v1[(v1 == 0).all(-1)] = 1
        v2[(v2 == 0).all(-1)] = [0, 1, 0]
        ctx.events["pair:integer"] += 1
    ax = int(rng.integers(len(lead) + 1))
    a, b = layout(rng, v1, lead, ax), layout(rng, v2, lead, ax)
    nd = a.ndim
    kw = {}
    da = rng.random() < 0.35
    if da:
        dims = ["d%d" % i for i in range(nd)]
        dims[ax] = "cartesian_axis"
        c = {"cartesian_axis": list("xyz")}
        for d, k in zip(dims, a.shape):
            if d != "cartesian_axis":
                c[d] = np.arange(k)
        x1 = xr.DataArray(a, c, dims, "v", {"k": 1})
        x2 = xr.DataArray(b, c, dims) if rng.random() < 0.5 else b
        if ax != nd - 1 or rng.random() < 0.5:
            kw["dim"] = "cartesian_axis"
    else:
        x1, x2 = G.dress(rng, a), G.dress(rng, b)
        if ax != nd - 1 or rng.random() < 0.5:
            kw["axis"] = A.neg(rng, ax, nd)
    q = ctx.call(rbm.shortest_arc_rotation, x1, x2, **kw)
    if da:
        wd = tuple("quaternion_axis" if d == "cartesian_axis" else d
                   for d in dims)
        ctx.check(q.dims == wd, "dataarray", got=q.dims)
        ctx.check(list(q.quaternion_axis.values) == list("wxyz"), "dataarray")
        for d in wd:
            if d != "quaternion_axis":
                ctx.check(q[d].identical(x1[d]), "dataarray", d)
        q = q.values
    v1, v2 = v1.astype(float), v2.astype(float)
    q = np.moveaxis(np.asarray(q), ax, -1).reshape(-1, 4)
    ctx.check(q.shape == (n, 4), "turns-onto", f"shape {q.shape}")
    nrm = np.linalg.norm(q, axis=-1)
    ctx.close(nrm, np.ones(n), "turns-onto", 1e-9, "unit norm")
    u1 = v1 / np.linalg.norm(v1, axis=-1, keepdims=True)
    u2 = v2 / np.linalg.norm(v2, axis=-1, keepdims=True)
    ctx.close(O.apply_R(O.q2R(q), u1), u2, "turns-onto", 1e-6, v1=v1, v2=v2)
    ang = 2 * np.arctan2(np.linalg.norm(u1 - u2, axis=-1),
                         np.linalg.norm(u1 + u2, axis=-1))
    got = 2 * np.arctan2(np.linalg.norm(q[:, 1:], axis=-1), np.abs(q[:, 0]))
    ctx.close(got, ang, "smallest-angle", 1e-6, v1=v1, v2=v2)
    ctx.nontrivial("shortest", len(lead), ax, da)


def separated(rng, n):
    """Points with pairwise distance >= 0.6."""
    g = np.stack(np.meshgrid(*[np.arange(4.0)] * 3), -1).reshape(-1, 3)
    p = g[rng.permutation(len(g))[:n]] + rng.uniform(-0.2, 0.2, (n, 3))
    return (p - p.mean(0)) @ O.q2R(G.quat(rng)).T


def nn(a, b):
    d = np.linalg.norm(a[:, None] - b[None], axis=-1)
    return d.min(1), d.argmin(1)


@prop.scenario(3)
def icp(ctx):
    rng = ctx.rng
    n = int(rng.integers(8, 40))
    sc = 10.0 ** rng.integers(0, 3)
    v1 = separated(rng, n) * sc
    reach = np.linalg.norm(v1, axis=-1).max()
    # displacement of every point < 0.28 (half the separation is 0.3)
    q = O.rv2q(_unit(rng) * rng.uniform(0, 0.14) * sc / reach)
    t = _unit(rng) * rng.uniform(0, 0.13) * sc
    off = rng.standard_normal(3) * sc * 10
    v2 = v1 @ O.q2R(q).T + t
    R, T = O.q2R(q), t
    kw = {}
    init = rng.random() < 0.5
    if init:
        # the truth is far away; the guess is off by the small displacement
        qi, ti = G.quat(rng), off
        Ri = O.q2R(qi)
        # v2 = S (Ri v1 + ti) with S the small displacement about the guess
        y = v1 @ Ri.T
        v2 = y @ O.q2R(q).T + t + ti
        R = O.q2R(q) @ Ri
        T = t + ti
        form = rng.integers(3)
        kw["init_transform"] = (
            (ti, qi), (ti.tolist(), qi.tolist()),
            (xr.DataArray(ti, dims="c"), xr.DataArray(qi, dims="q")))[form]
    perm = rng.permutation(n)
    dst = v2[perm]
    if rng.random() < 0.4:  # extra far-away points in the target
        far = v2.mean(0) + np.array([1, 1, 1]) * sc * 50 \
            + rng.standard_normal((5, 3)) * sc
        dst = np.concatenate([dst, far])[rng.permutation(n + 5)]
    if rng.random() < 0.3:
        kw["max_iterations"] = int(rng.integers(1, 30))
    if rng.random() < 0.3:
        kw["tolerance"] = float(rng.choice([0, 1e-12, 1e-6, 1e-3]))
    x1, x2 = v1, dst
    da = rng.random() < 0.3
    if rng.random() < 0.3 and not da:
        kw["axis"] = int(rng.choice([0, -2]))
        x1, x2 = x1.T, x2.T
    if da:
        x1 = xr.DataArray(x1, {"cartesian_axis": list("xyz")},
                          ("time", "cartesian_axis"))
        if rng.random() < 0.5:
            x2 = xr.DataArray(x2, dims=("time2", "cartesian_axis"))
    gt, gq = ctx.call(rbm.iterative_closest_point, x1, x2, **kw)
    if da:
        ctx.check(isinstance(gt, xr.DataArray) and isinstance(gq, xr.DataArray)
                  and gt.dims == ("cartesian_axis",)
                  and gq.dims == ("quaternion_axis",), "dataarray")
    gt, gq = np.asarray(gt), np.asarray(gq)
    ctx.close(np.linalg.norm(gq), 1.0, "icp-recovery", 1e-9)
    mech = "icp-init" if init else "icp-recovery"
    ctx.close(O.q2R(gq), R, mech, 1e-6, kw=kw)
    ctx.close(gt / sc, T / sc, mech, 1e-6, kw=kw)
    ctx.nontrivial("icp", init, da, "axis" in kw, "max_iterations" in kw,
                   "tolerance" in kw, len(dst) > n, int(np.log10(sc)))


def _unit(rng):
    v = rng.standard_normal(3)
    return v / np.linalg.norm(v)


@prop.scenario(2)
def icp_steps(ctx):
    """Unrelated / noisy clouds: single steps are optimal, error decreases."""
    rng = ctx.rng
    n, m = int(rng.integers(5, 30)), int(rng.integers(5, 30))
    v1 = rng.standard_normal((n, 3))
    v2 = rng.standard_normal((m, 3)) + rng.standard_normal(3)
    qi, ti = G.quat(rng), rng.standard_normal(3)
    kw = {"init_transform": (ti, qi)} if rng.random() < 0.5 else {}
    start = v1 @ O.q2R(qi).T + ti if kw else v1
    one = {"max_iterations": 1} if rng.random() < 0.5 else {"tolerance": 1e9}
    gt, gq = ctx.call(rbm.iterative_closest_point, v1, v2, **kw, **one)
    d0, idx = nn(start, v2)
    c1, c2 = start - start.mean(0), v2[idx] - v2[idx].mean(0)
    best = (c1**2).sum() + (c2**2).sum() - 2 * horn(c1, c2)
    got = v1 @ O.q2R(gq).T + gt
    cost = ((got - v2[idx]) ** 2).sum()
    ctx.close(cost, best, "icp-step", 1e-7)
    # other units: same registration
    k = int(rng.integers(1, 40))
    f = 2.0 ** int(rng.integers(-40, 20))
    tol = float(rng.choice([0.0, 1e-9, 1e-3, 1e-2, 0.1]))
    e = {"init_transform": (ti, qi)} if kw else {}
    ef = {"init_transform": (ti * f, qi)} if kw else {}
    a = ctx.call(rbm.iterative_closest_point, v1, v2, max_iterations=k,
                 tolerance=tol, **e)
    b = ctx.call(rbm.iterative_closest_point, v1 * f, v2 * f,
                 max_iterations=k, tolerance=tol * f, **ef)
    ctx.close(np.asarray(b[0]) / f, a[0], "icp-units", 1e-9, f=f, stop=tol)
    ctx.close(b[1], a[1], "icp-units", 1e-9, f=f, stop=tol)
    # until convergence: the mean squared nearest distance never increases
    k = int(rng.integers(2, 25))
    gt, gq = ctx.call(rbm.iterative_closest_point, v1, v2, max_iterations=k,
                      **kw)
    got = v1 @ O.q2R(gq).T + gt
    ctx.check((nn(got, v2)[0] ** 2).sum() <= (nn(start, v2)[0] ** 2).sum()
              + 1e-9, "icp-improves", "nearest-neighbour error increased")
    ctx.check((nn(got, v2)[0] ** 2).sum() <= cost + 1e-9, "icp-improves",
              "worse than the first iteration")
    ctx.nontrivial("steps", bool(kw), tuple(one), min(n, 8), min(m, 8))

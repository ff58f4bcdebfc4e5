"""C21: Plots show the given geometry."""
import matplotlib

matplotlib.use("Agg")
import numpy as np
import rigid_body_motion as rbm
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from mpl_toolkits.mplot3d import proj3d

from .. import gen as G
from .. import oracle as O
from ..core import Prop

prop = Prop(
    "C21",
    "Plots",
    "single and multiple points / vectors / quaternions in several containers "
    "and dtypes, with and without bases, on new, given, pre-populated and "
    "pre-scaled axes; static frames at any depth and direction, arrow lengths "
    "1e-2..1e2, with and without world frame. The monitor reads the artists "
    "(line data, quiver segments, arrows projected under three views) and the "
    "axis limits. Signature = (function, shape, axes state, options).",
    quick=3500, thorough=14000,
    assumptions=["matplotlib draws its artists as specified"],
)
prop.require("monitor:points", "monitor:vectors", "monitor:quaternions",
             "monitor:frame", "monitor:equal", "monitor:contains",
             "monitor:axes")


def new_axes(ctx):
    """An existing 3D axes in some state, or None."""
    rng = ctx.rng
    m = rng.integers(4)
    if m == 0:
        return None, "new"
    ax = plt.figure(figsize=(2, 2)).add_subplot(111, projection="3d")
    if m == 1:
        return ax, "empty"
    if m == 2:
        p = G.vec(rng, 4)
        ax.plot(*p.T)
        return ax, "populated"
    c, r = G.vec(rng), rng.uniform(0.1, 100, 3)
    ax.set_xlim3d(c[0] - r[0], c[0] + r[0])
    ax.set_ylim3d(c[1] - r[1], c[1] + r[1])
    ax.set_zlim3d(c[2] - r[2], c[2] + r[2])
    return ax, "scaled"


def limits(ax):
    return np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])


def equal_scale(ctx, ax, **kw):
    lim = limits(ax)
    d = np.abs(lim[:, 1] - lim[:, 0])
    ctx.check(bool(np.all(np.abs(d - d.max()) <= 1e-9 * (
        d.max() + np.abs(lim).max()))), "equal", "ranges differ", got=lim, **kw)


def run(ctx, fn, *args, given, **kw):
    """Call a plot function; returns (artists, axes)."""
    figs = set(plt.get_fignums())
    n0 = {id(a) for a in artists(given)} if given is not None else set()
    if given is not None:
        kw["ax"] = given
    out = ctx.call(fn, *args, **kw)
    made = set(plt.get_fignums()) - figs
    if given is None:
        ctx.check(len(made) == 1, "axes", "one new figure", got=made)
        fig = plt.figure(made.pop())
        if "figsize" in kw:
            ctx.close(fig.get_size_inches(), kw["figsize"], "axes", 1e-9)
        ctx.check(len(fig.axes) == 1, "axes", "one axes", got=fig.axes)
        ax = fig.axes[0]
    else:
        ctx.check(not made, "axes", "figure created though axes given")
        ax = given
    ctx.check(hasattr(ax, "get_zlim3d"), "axes", "3D axes", got=ax)
    flat = []
    for o in out if isinstance(out, (list, tuple)) else [out]:
        flat.append(o)
    present = {id(a) for a in artists(ax)}
    ctx.check(all(id(o) in present for o in flat), "axes",
              "returned artists are drawn on the axes", got=flat)
    ctx.check(len(present - n0) == len(flat), "axes", "extra artists",
              got=len(present - n0), want=len(flat))
    return out, ax


def artists(ax):
    return list(ax.lines) + list(ax.collections) + list(ax.artists) + [
        p for p in ax.patches]


def shafts(coll, n):
    """The first n segments of a quiver are the arrow shafts."""
    segs = np.array(coll._segments3d, float)
    return segs[:n]


def cont(rng, a):
    return [a, a.tolist(), tuple(map(tuple, a)) if a.ndim == 2 else tuple(a),
            np.asfortranarray(a), a.astype("float32")
            if a.dtype.kind == "f" else a][rng.integers(5)]


def data(ctx, k=3):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4, int(rng.integers(5, 40))]))
    one = n == 1 and rng.random() < 0.7
    if k == 4:
        a = G.quat(rng, n)
        if rng.random() < 0.2:
            a = a * rng.uniform(0.3, 3, (n, 1))
    else:
        a = G.vec(rng, n)
        if rng.random() < 0.2:
            a = rng.integers(-9, 10, (n, 3))
            a[~a.any(-1)] = 1
        elif k == 3:
            a[~a.any(-1)] = 1.0
    return (a[0] if one else a), n


def tidy(fn):
    def wrapped(ctx):
        try:
            fn(ctx)
        finally:
            plt.close("all")

    wrapped.__name__ = fn.__name__
    return wrapped


@prop.scenario(2)
@tidy
def points(ctx):
    rng = ctx.rng
    a, n = data(ctx)
    ax, state = new_axes(ctx)
    kw = {}
    if rng.random() < 0.4:
        kw["fmt"] = str(rng.choice(["ro", "b-", "k.", "g:"]))
    if rng.random() < 0.3:
        kw["linewidth"] = 3.5
    if ax is None and rng.random() < 0.5:
        kw["figsize"] = (3, 2)
    fn = rbm.plot.points if rng.random() < 0.5 else rbm.plot.plot_points
    given = cont(rng, a)
    lines, ax2 = run(ctx, fn, given, given=ax, **kw)
    ctx.check(len(lines) == 1, "points", "one line", got=lines)
    want = np.atleast_2d(np.asarray(given)).astype(float)
    ctx.close(np.array(lines[0].get_data_3d()).T, want, "points", 1e-12)
    if "linewidth" in kw:
        ctx.check(lines[0].get_linewidth() == 3.5, "points", "kwargs")
    if kw.get("fmt") in ("ro", "k."):
        ctx.check(lines[0].get_marker() == kw["fmt"][1] and mcolors.same_color(
            lines[0].get_color(), kw["fmt"][0]), "points", "format")
    equal_scale(ctx, ax2)
    if state in ("new", "empty", "populated"):
        lim = limits(ax2)
        s = 1e-9 * (1 + np.abs(want).max())
        ctx.check(bool(np.all(lim[:, 0] - s <= want.min(0))
                       and np.all(lim[:, 1] + s >= want.max(0))), "contains",
                  "points outside the limits", got=lim, want=want)
    ctx.nontrivial(state, min(n, 4), a.ndim, a.dtype.kind, sorted(kw))


def base_for(ctx, shape):
    rng = ctx.rng
    if rng.random() < 0.35:
        return None, np.zeros(shape)
    b = G.vec(rng, shape[:-1] if len(shape) > 1 else (), 1.0)
    if rng.random() < 0.2:
        b = np.round(b).astype(int)
    return b, np.asarray(b, float)


@prop.scenario(2)
@tidy
def vectors(ctx):
    rng = ctx.rng
    a, n = data(ctx)
    ax, state = new_axes(ctx)
    base, b = base_for(ctx, a.shape)
    kw = {}
    if base is not None:
        kw["base"] = cont(rng, base)
        b = np.asarray(kw["base"], float)
    length = 1.0
    if rng.random() < 0.3:
        length = kw["length"] = float(rng.uniform(0.1, 4))
    if rng.random() < 0.3:
        kw["color"] = "m"
    if ax is None and rng.random() < 0.5:
        kw["figsize"] = (3, 2)
    fn = rbm.plot.vectors if rng.random() < 0.5 else rbm.plot.plot_vectors
    if a.ndim == 2 and n > 1 and rng.random() < 0.2:
        a = a.copy()
        a[rng.integers(n)] = 0  # draws nothing, the others keep their base
        ctx.events["zero-vector"] += 1
    given = cont(rng, a)
    coll, ax2 = run(ctx, fn, given, given=ax, **kw)
    v = np.atleast_2d(np.asarray(given, float))
    b = np.atleast_2d(b)
    keep = v.any(-1)
    v, b = v[keep], b[keep] if len(b) == len(v) else b
    if keep.all():
        seg = shafts(coll, n)
    else:  # a vector of length zero may leave a point
        seg = np.array(coll._segments3d, float)
        seg = seg[: len(seg) // 3]
        seg = seg[np.any(seg[:, 0] != seg[:, 1], -1)]
    want = np.stack([b, b + length * v], 1)
    ctx.close(np.sort(seg, 1), np.sort(want, 1), "vectors", 1e-6,
              "shaft end points")
    if "color" in kw:
        ctx.check(mcolors.same_color(coll.get_edgecolor()[0], "m"), "vectors",
                  "kwargs")
    equal_scale(ctx, ax2)
    ctx.nontrivial(state, min(n, 4), a.ndim, base is None, sorted(kw))


@prop.scenario(2)
@tidy
def quaternions(ctx):
    rng = ctx.rng
    a, n = data(ctx, 4)
    ax, state = new_axes(ctx)
    base, b = base_for(ctx, a.shape[:-1] + (3,))
    kw = {}
    if base is not None:
        kw["base"] = cont(rng, base)
        b = np.asarray(kw["base"], float)
    if ax is None and rng.random() < 0.5:
        kw["figsize"] = (3, 2)
    fn = rbm.plot.quaternions if rng.random() < 0.5 else (
        rbm.plot.plot_quaternions)
    given = cont(rng, a)
    out, ax2 = run(ctx, fn, given, given=ax, **kw)
    ctx.check(len(out) == 3, "quaternions", "three axes", got=out)
    R = np.atleast_3d(O.q2R(np.asarray(given, float))).reshape(-1, 3, 3)
    b = np.atleast_2d(b)
    lens = np.zeros(0)
    for k, c in enumerate("rgb"):
        seg = shafts(out[k], n)
        d = seg[:, 1] - seg[:, 0]
        start = np.where(
            (np.abs(seg[:, 0] - b).max(-1) < np.abs(seg[:, 1] - b).max(-1)
             )[:, None], seg[:, 0], seg[:, 1])
        ctx.close(start, b, "quaternions", 1e-5, "base")
        tip = seg.sum(1) - start - b
        ctx.close(tip / np.linalg.norm(tip, axis=-1, keepdims=True),
                  R[..., k], "quaternions", 1e-5, f"axis {c}")
        ln = np.linalg.norm(d, axis=-1)
        lens = np.concatenate([lens, ln])
        ctx.check(bool(np.all(np.abs(lens - lens[0]) < 1e-5)), "quaternions",
                  "equal lengths", got=lens)
        ctx.check(mcolors.same_color(out[k].get_edgecolor()[0], c),
                  "quaternions", "colour", got=out[k].get_edgecolor())
    equal_scale(ctx, ax2)
    ctx.nontrivial(state, min(n, 4), a.ndim, base is None)


def projected(ctx, ax, arrows, o, tips):
    """Arrow end points under several views."""
    for elev, azim in ((30, -60), (0, 0), (80, 35)):
        ax.view_init(elev, azim)
        ax.M = ax.get_proj()
        for a, tip in zip(arrows, tips):
            a.do_3d_projection()
            got = np.array(a._posA_posB)
            x, y, _ = proj3d.proj_transform(*np.array([o, tip]).T, ax.M)
            ctx.close(got, np.array([x, y]).T, "frame", 1e-7,
                      "projected arrow")


@prop.scenario(4)
@tidy
def frames(ctx):
    rng = ctx.rng
    models, _, _ = G.tree(ctx, rbm, kinds=("static",))
    ax, state = new_axes(ctx)
    before = limits(ax) if ax is not None else None
    first = True
    seen = []
    for _ in range(int(rng.integers(1, 4))):
        f = models[rng.integers(len(models))]
        w = models[rng.integers(len(models))] if rng.random() < 0.75 else None
        kw = {}
        if w is not None:
            kw["world_frame"] = G.ref(ctx, w)
        al = 1.0
        if rng.random() < 0.5:
            al = kw["arrow_len"] = float(10 ** rng.uniform(-2, 2))
        if ax is None and rng.random() < 0.5:
            kw["figsize"] = (3, 2)
        fn = (rbm.plot.reference_frame if rng.random() < 0.5
              else rbm.plot.plot_reference_frame)
        arrows, ax2 = run(ctx, fn, G.ref(ctx, f), given=ax, **kw)
        ctx.check(len(arrows) == 3, "frame", "three arrows", got=arrows)
        t, R = (np.zeros(3), np.eye(3)) if w is None else O.lookup(f, w)[:2]
        tips = [t + al * R[:, k] for k in range(3)]
        projected(ctx, ax2, arrows, t, tips)
        for a, c in zip(arrows, "rgb"):
            ctx.check(mcolors.same_color(a.get_edgecolor(), c), "frame",
                      "colour", got=a.get_edgecolor())
        equal_scale(ctx, ax2)
        seen += [t, *tips]
        if before is not None:
            seen += list(before.T)
        lim = limits(ax2)
        s = 1e-9 * (1 + np.abs(seen).max())
        ctx.check(bool(np.all(lim[:, 0] - s <= np.min(seen, 0))
                       and np.all(lim[:, 1] + s >= np.max(seen, 0))),
                  "contains", "limits do not contain what was plotted",
                  got=lim, want=(np.min(seen, 0), np.max(seen, 0)))
        ctx.check(bool(np.all(np.isfinite(lim))), "contains", "limits finite")
        # nothing is blown up without need
        span = np.ptp(np.concatenate([seen, [[0] * 3, [1] * 3]]), 0).max()
        ctx.check(lim[0, 1] - lim[0, 0] <= 1.5 * span + s, "contains",
                  "limits far too wide", got=lim, span=span)
        ax, first = ax2, False
        ctx.nontrivial(state, w is None, al == 1.0, f.parent is None)
    if rng.random() < 0.1:
        ax.figure.canvas.draw()
        ctx.events["drawn"] += 1
    ctx.describe(frames=len(models), state=state)


def other_base(rng, n):
    """Base points that do not belong to n vectors, some of as many numbers."""
    b = G.vec(rng, n)
    return [G.vec(rng, n + 1), G.vec(rng, n - 1), G.vec(rng, 1), b[0],
            b.T if n != 3 else b[:, :2], b.reshape(-1), b[None], b[..., None],
            b[:, None]][rng.integers(9)]


@prop.scenario(1)
@tidy
def rejected(ctx):
    rng = ctx.rng
    r = G.root(ctx, rbm)
    clock = G.Clock(rng)
    m = G.add_frame(ctx, rbm, r, clock, "moving")
    ctx.rejects(NotImplementedError, rbm.plot.reference_frame, m.obj,
                _what="moving frame")
    bad = [np.zeros((2, 3, 3)) + 1, np.ones((4, 2)), np.ones((3, 4)),
           np.ones(4), np.ones(2), np.ones((1, 4, 3)), np.ones((4, 3, 1)),
           np.ones((3, 6)), np.ones(6)][rng.integers(9)]
    ctx.rejects((ValueError, IndexError), rbm.plot.points, bad,
                _what="bad points")
    ctx.rejects((ValueError, IndexError), rbm.plot.vectors, bad,
                _what="bad vectors")
    n = int(rng.integers(2, 6))
    ctx.rejects(ValueError, rbm.plot.vectors, G.vec(rng, n),
                base=other_base(rng, n), _what="base shape")
    ctx.rejects(ValueError, rbm.plot.quaternions, G.quat(rng, n),
                base=other_base(rng, n), _what="base shape")
    ctx.nontrivial(bad.shape)

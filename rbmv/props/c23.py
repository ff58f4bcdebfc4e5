"""C23: velocity filtering removes noise and outliers and nothing else."""
import numpy as np
import rigid_body_motion as rbm
import xarray as xr

from .. import arrays as A, gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C23",
    "velocity filtering",
    "probe signals (constant, slow and fast sinusoids relative to the cutoff, "
    "superpositions, noise, isolated position or rotation jumps on smooth "
    "tracks; 60-400 samples, several clocks) through estimate_*, DataArray, "
    "lookup_*, twist and velocity-transform forms in random layouts. "
    "Monitors: constants and slow components pass with zero phase, fast ones "
    "are suppressed, linearity, independence of components, outliers removed, "
    "data below the threshold untouched, all forms agree. Signature = (probe, "
    "form, layout, clock).",
    quick=5400, thorough=20000,
    assumptions=["first and last quarter of the samples excluded for "
                 "transients", "outliers in the interior of the track"],
)
prop.require("monitor:passband", "monitor:stopband", "monitor:constant",
             "monitor:linear", "monitor:separate", "monitor:outlier",
             "monitor:untouched", "monitor:below-threshold", "monitor:forms",
             "monitor:transform", "form:estimate", "form:da", "form:lookup",
             "form:twist", "form:method", "monitor:whole-numbers")


def clock_grid(ctx, n, regular=True):
    rng = ctx.rng
    clock = G.Clock(rng, str(rng.choice(["float", "float0", "ns", "us"])))
    dt = float(rng.choice([0.03125, 0.25, 1.0]))
    steps = np.full(n - 1, dt)
    if not regular:
        steps = steps * rng.uniform(0.7, 1.3, n - 1)
    return clock, clock.make(rng.uniform(0, 3), steps)


def frame(ctx, ts, pos=None, quat=None):
    """Moving frame below a static one."""
    rng = ctx.rng
    w = rbm.ReferenceFrame(G.fresh_name("w"))
    p = rbm.ReferenceFrame(G.fresh_name("p"), parent=w, translation=G.vec(
        rng, (), 1.0), rotation=G.quat(rng))
    kw = {}
    if pos is not None:
        kw["translation"] = pos
    if quat is not None:
        kw["rotation"] = quat
    return w, p, rbm.ReferenceFrame(G.fresh_name("m"), parent=p,
                                    timestamps=ts, **kw)


def ask(ctx, kind, x, ts, form=None, **opt):
    """Velocity estimate of a track through one public form, as (N, 3)."""
    rng = ctx.rng
    lin = kind == "linear"
    form = form or str(rng.choice(["estimate", "da", "lookup", "twist",
                                   "method"]))
    ctx.events["form:" + form] += 1
    est = rbm.estimate_linear_velocity if lin else rbm.estimate_angular_velocity
    if form in ("estimate", "da"):
        flip = bool(rng.random() < 0.5)
        arr = np.ascontiguousarray(x.T) if flip else x
        if form == "da":
            ax = "cartesian_axis" if lin else "quaternion_axis"
            dims = (ax, "time") if flip else ("time", ax)
            da = xr.DataArray(arr, {"time": ts}, dims)
            out = ctx.call(est, da, dim=ax, timestamps="time", **opt)
            out = out.values
        else:
            kw = {"axis": 0, "time_axis": 1} if flip else {}
            out = ctx.call(est, arr, timestamps=ts, **kw, **opt)
        out = np.asarray(out)
        return (out.T if flip else out), form
    w, p, m = frame(ctx, ts, **{"pos" if lin else "quat": x})
    rep = p if lin else m
    if form == "twist":
        if rng.random() < 0.5:
            ds = ctx.call(rbm.lookup_twist, m, p, rep, as_dataset=True, **opt)
            return ds["linear_velocity" if lin else
                      "angular_velocity"].values, form
        fn = m.lookup_twist if rng.random() < 0.5 else None
        v, o = (ctx.call(fn, p, rep, **opt) if fn else
                ctx.call(rbm.lookup_twist, m, p, rep, **opt))
        return np.asarray(v if lin else o), form
    name = "lookup_linear_velocity" if lin else "lookup_angular_velocity"
    if form == "method":
        return np.asarray(ctx.call(getattr(m, name), p, rep, **opt)), form
    return np.asarray(ctx.call(getattr(rbm, name), m, p, rep, **opt)), form


AXES = [np.eye(3)[0], np.eye(3)[1], np.eye(3)[2],
        np.ones(3) / np.sqrt(3), np.array([0.6, -0.8, 0])]


def track(ctx, kind, comps, n, ts, clock, axis=None):
    """Position or rotation track with scalar components (n, k)."""
    if kind == "linear":
        return comps
    return O.rv2q(axis * comps)


def mid(a):
    n = len(a)
    return a[n // 4: n - n // 4]


@prop.scenario(4)
def bands(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["linear", "angular"]))
    n = int(rng.integers(300, 420))
    clock, ts = clock_grid(ctx, n)
    s = clock.seconds(ts)
    s = s - s[0]
    k = np.arange(n)
    cutoff = float(rng.uniform(0.12, 0.5))
    slow = np.pi * cutoff * rng.uniform(0.05, 0.55)
    fast = np.pi * min(cutoff * rng.uniform(1.9, 3.0), 0.97)
    axis = AXES[rng.integers(5)]
    amp = 0.02 if kind == "angular" else float(10 ** rng.uniform(-2, 2))
    rate = (0.2 / s[-1] if kind == "angular"
            else rng.uniform(-2, 2)) * (amp if kind == "linear" else 1)
    ph = rng.uniform(0, 6.28, (2, 3))

    def sig(a, b, c):
        if kind == "linear":
            d = np.array([1.0, -0.5, 0.7])
            return d * (c * rate * s[:, None] + a * amp * np.sin(
                slow * k[:, None] + ph[0]) + b * amp * np.sin(
                    fast * k[:, None] + ph[1]))
        return O.rv2q(axis * (c * rate * s + a * amp * np.sin(
            slow * k + ph[0, 0]) + b * amp * np.sin(fast * k + ph[1, 0])
        )[:, None])

    probe = str(rng.choice(["constant", "passband", "stopband", "mixed"]))
    a, b, c = {"constant": (0, 0, 1), "passband": (1, 0, 0),
               "stopband": (0, 1, 0), "mixed": (1, 1, 1)}[probe]
    x = sig(a, b, c)
    if kind == "angular" and rng.random() < 0.4:
        x = x * G.signs(rng, x)
    raw, _ = ask(ctx, kind, x, ts, form="estimate")
    got, form = ask(ctx, kind, x, ts, cutoff=cutoff)
    ctx.check(got.shape == raw.shape, "constant" if probe == "constant" else
              "passband", "shape", got=got.shape)
    ref = np.abs(mid(raw)).max()
    if probe == "constant":
        err = np.abs(got - raw).max()
        ctx.check(err <= 1e-5 * ref, "constant", "constant velocity changed",
                  err=err, ref=ref, cutoff=cutoff)
    elif probe == "passband":
        err = np.abs(mid(got) - mid(raw)).max()
        ctx.check(err <= 0.02 * ref, "passband", "slow component changed",
                  err=err, ref=ref, cutoff=cutoff, w=slow / np.pi)
    elif probe == "stopband":
        err = np.abs(mid(got)).max()
        ctx.check(err <= 0.03 * ref, "stopband", "fast component passed",
                  err=err, ref=ref, cutoff=cutoff, w=fast / np.pi)
    else:
        keep, _ = ask(ctx, kind, sig(1, 0, 1), ts, form="estimate")
        err = np.abs(mid(got) - mid(keep)).max()
        fastref = np.abs(mid(ask(ctx, kind, sig(0, 1, 0), ts,
                                 form="estimate")[0])).max()
        ctx.check(err <= 0.03 * (np.abs(mid(keep)).max() + fastref),
                  "stopband", "mixture not separated", err=err, cutoff=cutoff)
    ctx.nontrivial(probe, kind, form, clock.kind, round(cutoff, 1))
    ctx.describe(kind=kind, probe=probe, cutoff=cutoff, form=form)


@prop.scenario(3)
def laws(ctx):
    """Linearity, independence of components, agreement of all forms."""
    rng = ctx.rng
    n = int(rng.integers(40, 120))
    clock, ts = clock_grid(ctx, n, rng.random() < 0.5)
    cutoff = float(rng.uniform(0.1, 0.9))
    unit = float(10.0 ** rng.uniform(-10, 6)) if rng.random() < 0.6 else 1.0
    x, y = (unit * np.cumsum(rng.standard_normal((n, 3)), 0) for _ in range(2))
    a, b = rng.uniform(-2, 2, 2)
    if rng.random() < 0.4:  # components of very different magnitude
        a = float(10.0 ** rng.uniform(-9, -3))
        z, _ = ask(ctx, "linear", a * x, ts, cutoff=cutoff)
        fx0, _ = ask(ctx, "linear", x, ts, cutoff=cutoff, form="estimate")
        ctx.close(z / a / np.abs(fx0).max(), fx0 / np.abs(fx0).max(),
                  "linear", 1e-6, "scaled track")
    fx, form = ask(ctx, "linear", x, ts, cutoff=cutoff)
    fy, _ = ask(ctx, "linear", y, ts, cutoff=cutoff)
    fs, _ = ask(ctx, "linear", a * x + b * y, ts, cutoff=cutoff)
    sc = np.abs(fx).max() + np.abs(fy).max()
    ctx.close(fs / sc, (a * fx + b * fy) / sc, "linear", 1e-6)
    z = x.copy()
    j = int(rng.integers(3))
    z[:, j] = y[:, j]
    fz, _ = ask(ctx, "linear", z, ts, cutoff=cutoff)
    want = fx.copy()
    want[:, j] = fy[:, j]
    ctx.close(fz / sc, want / sc, "separate", 1e-6)
    f2, _ = ask(ctx, "linear", x, ts, cutoff=cutoff)
    ctx.close(f2 / sc, fx / sc, "forms", 1e-6)
    # N-d arrays: every trailing slice is filtered on its own along time
    arr, ax, ta = A.place(rng, np.stack([x, y], 1), True)
    got = ctx.call(rbm.estimate_linear_velocity, arr, timestamps=ts, axis=ax,
                   time_axis=ta, cutoff=cutoff)
    want = np.moveaxis(np.stack([fx, fy], 1), (0, -1), (ta, ax))
    ctx.close(np.asarray(got) / sc, want / sc, "separate", 1e-6, "n-d array",
              axis=ax, time_axis=ta)
    q = G.walk_quat(rng, n, 0.4)
    md = {} if rng.random() < 0.4 else {
        "mode": str(rng.choice(["quaternion", "rotation_vector"]))}
    ctx.events["mode:" + md.get("mode", "default")] += 1
    o1, _ = ask(ctx, "angular", q, ts, cutoff=cutoff, **md)
    o2, form2 = ask(ctx, "angular", q, ts, cutoff=cutoff, **md)
    ctx.close(o1, o2, "forms", 1e-6)
    raw, _ = ask(ctx, "angular", q, ts, **md)
    raw2, _ = ask(ctx, "angular", q, ts, cutoff=None, outlier_thresh=None,
                  **md) if form2 != "twist" else (raw, None)
    ctx.close(raw, raw2, "forms", 1e-9, "options off")
    # no sample is an outlier: the other option works as on its own
    oc, _ = ask(ctx, "angular", q, ts, cutoff=cutoff, outlier_thresh=1e6,
                **md)
    ctx.close(oc, o1, "forms", 1e-6, "both options")
    fc, _ = ask(ctx, "linear", x, ts, cutoff=cutoff, outlier_thresh=1e6 * unit)
    ctx.close(fc / sc, fx / sc, "forms", 1e-6, "both options")
    ctx.check(np.abs(o1 - raw).max() > 1e-6 * np.abs(raw).max() or cutoff > 0.8,
              "forms", "cutoff has no effect")
    ctx.nontrivial(form, form2, clock.kind, arr.ndim, ax, ta)


def smooth(ctx, n, kind):
    """Slow smooth track sampled at normalised time u in [0, 1]."""
    rng = ctx.rng
    w = rng.uniform(1.0, 3.0, 3)
    ph = rng.uniform(0, 6.28, 3)
    a = rng.uniform(0.3, 1.0, 3) * (0.4 if kind == "angular" else 1.0)

    def f(u):
        return a * np.sin(w * u[:, None] + ph)

    return f


@prop.scenario(3)
def outliers(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["linear", "angular"]))
    n = int(rng.integers(60, 160))
    clock, ts = clock_grid(ctx, n, rng.random() < 0.6)
    s = clock.seconds(ts)
    s = s - s[0]
    u = s / s[-1]
    f = smooth(ctx, n, kind)
    base = f(u)
    kj = int(rng.integers(1, 4))
    at = []
    for _ in range(50):
        i = int(rng.integers(6, n - 7))
        if all(abs(i - j) > 12 for j in at):
            at.append(i)
        if len(at) == kj:
            break
    x = base.copy()
    for i in at:
        d = rng.standard_normal(3)
        x[i] += d / np.linalg.norm(d) * rng.uniform(0.4, 1.0)
    d2 = np.linalg.norm(np.diff(base, 2, axis=0), axis=-1).max()
    thresh = float(rng.uniform(max(4 * d2, 0.02), 0.25))
    if kind == "angular":
        base, x = O.rv2q(base), O.rv2q(x)
        if rng.random() < 0.3:
            x = x * G.signs(rng, x)
    forms = ["estimate", "da", "lookup", "method"] + (
        ["twist"] if kind == "linear" else [])
    form = str(rng.choice(forms))
    truth, _ = ask(ctx, kind, base, ts, form="estimate")
    plain, _ = ask(ctx, kind, x, ts, form="estimate")
    got, _ = ask(ctx, kind, x, ts, form=form, outlier_thresh=thresh)
    # what is below the threshold is returned unchanged
    hi, _ = ask(ctx, kind, x, ts, form=form, outlier_thresh=1e6)
    sc = np.abs(plain).max()
    ctx.close(hi / sc, plain / sc, "below-threshold", 1e-9)
    clean, _ = ask(ctx, kind, base, ts, form=form, outlier_thresh=thresh)
    ctx.close(clean / sc, truth / sc, "below-threshold", 1e-9)
    far = np.min(np.abs(np.arange(n)[:, None] - np.array(at)), 1)
    ctx.close(got[far > 4] / sc, plain[far > 4] / sc, "untouched", 1e-9)
    ref = np.abs(truth).max()
    span = 6 if kind == "linear" else 8
    # velocity changes by at most (curvature * gap) across the removed samples
    curv = np.abs(np.diff(truth, axis=0)).max() * span + 0.02 * ref
    if kind == "linear":
        err = np.abs(got - truth).max()
        ctx.check(err <= curv, "outlier", "jump still visible", err=err,
                  allowed=curv, before=np.abs(plain - truth).max(), at=at,
                  form=form)
    else:
        # five-point derivative: the jump leaks up to two samples further
        err = np.abs(got - truth)[far <= 1].max()
        ctx.check(err <= np.abs(plain - truth).max() * 0.35 + curv, "outlier",
                  "jump still visible", err=err,
                  before=np.abs(plain - truth).max(), form=form)
    ctx.check(got.shape == truth.shape and bool(np.all(np.isfinite(got))),
              "outlier", "shape or NaN", got=got)
    # combined with the low-pass filter: outliers go first
    cutoff = float(rng.uniform(0.2, 0.6))
    if kind == "linear":
        both, _ = ask(ctx, kind, x, ts, outlier_thresh=thresh, cutoff=cutoff)
        cl, _ = ask(ctx, kind, base, ts, cutoff=cutoff)
        err = np.abs(mid(both) - mid(cl)).max()
        ctx.check(err <= 2 * curv, "outlier", "jump still visible after "
                  "low-pass filter", err=err, allowed=2 * curv)
    ctx.nontrivial(kind, form, len(at), clock.kind)
    ctx.describe(kind=kind, at=at, thresh=thresh, form=form)


@prop.scenario(1)
def whole_numbers(ctx):
    """Tracks in an integer type give what the same numbers give as floats."""
    rng = ctx.rng
    n = int(rng.integers(40, 90))
    clock, ts = clock_grid(ctx, n, rng.random() < 0.5)
    x = np.cumsum(rng.uniform(-1, 1, (n, 3)) + 0.3, 0)
    for i in rng.integers(6, n - 6, int(rng.integers(0, 3))):
        x[i] += rng.uniform(3, 8, 3)
    x, = G.as_int(rng, x - x.min(0) * (rng.random() < 0.7))
    f = x.astype(float)
    kind = "linear"
    d2 = np.linalg.norm(np.diff(f, 2, axis=0), axis=-1)
    opt = {}
    if rng.random() < 0.8:
        d2 = np.sort(d2)
        k = int(rng.integers(len(d2) // 2, len(d2)))
        opt["outlier_thresh"] = float(d2[k] * 2.5 + 1)
    if not opt or rng.random() < 0.3:
        opt["cutoff"] = float(rng.uniform(0.1, 0.9))
    form = str(rng.choice(["estimate", "da"]))
    want, _ = ask(ctx, kind, f, ts, form="estimate", **opt)
    got, _ = ask(ctx, kind, x, ts, form=form, **opt)
    sc = 1e-300 + np.abs(f).max() / np.diff(clock.seconds(ts)).min()
    ctx.close(got / sc, want / sc, "whole-numbers", 1e-9, opt=opt,
              dtype=str(x.dtype))
    ctx.nontrivial("whole", str(x.dtype), form, clock.kind, tuple(opt))


@prop.scenario(2)
def transforms(ctx):
    """cutoff / outlier_thresh of the velocity transforms."""
    rng = ctx.rng
    n = int(rng.integers(60, 120))
    clock, ts = clock_grid(ctx, n)
    cutoff = float(rng.uniform(0.15, 0.6))
    w = rbm.ReferenceFrame(G.fresh_name("w"))
    pos = np.cumsum(rng.standard_normal((n, 3)), 0) * 0.1
    q = G.walk_quat(rng, n, 0.3)
    m = rbm.ReferenceFrame(G.fresh_name("m"), parent=w, translation=pos,
                           rotation=q, timestamps=ts)
    b = rbm.ReferenceFrame(G.fresh_name("b"), parent=m, translation=G.vec(
        rng, (), 1.0), rotation=G.quat(rng))
    v = rng.standard_normal((n, 3))
    what = str(rng.choice(["reference_frame", "moving_frame"]))
    top = rng.random() < 0.5
    if rng.random() < 0.5:
        def tr(**kw):
            if top:
                return np.asarray(ctx.call(
                    rbm.transform_angular_velocity, v, into=w, outof=m,
                    what=what, timestamps=ts, **kw))
            return np.asarray(ctx.call(
                m.transform_angular_velocity, v, w, what=what, timestamps=ts,
                **kw))

        # added velocity: m wrt w (reference) or w wrt m (moving), in w
        def add(**kw):
            a, r = (m, w) if what == "reference_frame" else (w, m)
            return np.asarray(ctx.call(a.lookup_angular_velocity, r, w, **kw))
        want = add(cutoff=cutoff) - add()
        got = tr(cutoff=cutoff) - tr()
        sc = np.abs(want).max() + np.abs(tr()).max()
        ctx.close(got / sc, want / sc, "transform", 1e-7, what)
        ctx.check(np.abs(want).max() > 1e-6, "transform", "no effect")
        ctx.nontrivial("angular", what, top)
        return
    mv, rf = (b, None) if what == "reference_frame" else (None, m)
    opts = {"cutoff": cutoff}
    if rng.random() < 0.4:
        i = int(rng.integers(8, n - 8))
        pos2 = pos.copy()
        pos2[i] += 50.0
        m = rbm.ReferenceFrame(G.fresh_name("m"), parent=w, translation=pos2,
                               rotation=q, timestamps=ts)
        b = rbm.ReferenceFrame(G.fresh_name("b"), parent=m, translation=[
            0.1, 0.2, 0.3])
        mv, rf = (b, None) if what == "reference_frame" else (None, m)
        opts["outlier_thresh"] = 10.0

    def tr(**kw):
        a = {"moving_frame": mv} if mv is not None else {"reference_frame": rf}
        if top:
            return np.asarray(ctx.call(
                rbm.transform_linear_velocity, v, into=w, outof=m, what=what,
                timestamps=ts, **a, **kw))
        return np.asarray(ctx.call(m.transform_linear_velocity, v, w,
                                   what=what, timestamps=ts, **a, **kw))

    def add(**kw):
        c = {k: x for k, x in kw.items() if k == "cutoff"}
        if what == "reference_frame":
            lin = ctx.call(m.lookup_linear_velocity, w, w, **kw)
            ang = ctx.call(m.lookup_angular_velocity, w, w, **c)
            arm = np.asarray(ctx.call(rbm.lookup_transform, b, m)[0])
            arm = np.tile(arm, (n, 1))
        else:
            lin = ctx.call(w.lookup_linear_velocity, m, w, **kw)
            ang = ctx.call(m.lookup_angular_velocity, m, w, allow_static=True)
            ang = np.zeros((n, 3))
            arm = np.zeros((n, 3))
        R = O.q2R(q)
        return lin + np.cross(ang, O.apply_R(R, arm))
    want = add(**opts) - add()
    got = tr(**opts) - tr()
    sc = np.abs(want).max() + np.abs(tr()).max()
    ctx.close(got / sc, want / sc, "transform", 1e-7, what)
    ctx.check(np.abs(want).max() > 1e-6, "transform", "no effect")
    ctx.nontrivial("linear", what, top, "outlier_thresh" in opts)

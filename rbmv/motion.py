"""Analytic smooth motions and trees of them (true velocities known)."""

import numpy as np

from . import gen as G, oracle as O

DELTA = 1e-3


class Motion:
    """Smooth rigid motion of a frame wrt its parent as function of time."""

    def __init__(self, rng, static=False, rate=1.0, pure=None):
        self.static = static
        self.p0 = rng.standard_normal(3)
        self.q0 = G.quat(rng)
        m = rng.integers(4) if pure is None else pure
        self.amp = np.zeros((2, 3)) if m == 1 else rng.standard_normal((2, 3))
        self.w = rng.uniform(0.5, 2.0, (2, 3)) * rate
        self.ph = rng.uniform(0, 6.28, (2, 3))
        self.ax = rng.standard_normal((2, 3))
        self.ax /= np.linalg.norm(self.ax, axis=1, keepdims=True)
        self.rw = rng.uniform(0.4, 1.3, 2) * rate
        self.rph = rng.uniform(0, 6.28, 2)
        self.ra = rng.uniform(0.3, 1.2, 2)
        self.lin = rng.uniform(-1.0, 1.0) * rate
        if m == 2:  # pure translation
            self.ra[:] = 0
            self.lin = 0.0
        if m == 3:  # constant rate about a fixed axis
            self.ra[:] = 0
        if static:
            self.amp[:] = 0
            self.ra[:] = 0
            self.lin = 0.0

    def pos(self, s):
        s = np.asarray(s, float)[..., None]
        return self.p0 + sum(
            self.amp[k] * np.sin(self.w[k] * s + self.ph[k]) for k in range(2))

    def quat(self, s):
        s = np.asarray(s, float)[..., None]
        a = self.ax[0] * (self.lin * s + self.ra[0] * np.sin(
            self.rw[0] * s + self.rph[0]))
        b = self.ax[1] * self.ra[1] * np.sin(self.rw[1] * s + self.rph[1])
        return O.qmul(O.qmul(self.q0, O.rv2q(a)), O.rv2q(b))


def to_root(f, s):
    """Analytic transform of points from frame f to its root at times s."""
    s = np.asarray(s, float)
    t = np.zeros(s.shape + (3,))
    R = np.zeros(s.shape + (3, 3)) + np.eye(3)
    while f.parent is not None:
        fR, ft = O.q2R(f.motion.quat(s)), f.motion.pos(s)
        t = O.apply_R(fR, t) + ft
        R = fR @ R
        f = f.parent
    return t, R


def rel(f, ref, s):
    """Pose of f wrt ref at times s."""
    tf, Rf = to_root(f, s)
    tr, Rr = to_root(ref, s)
    Rt = np.swapaxes(Rr, -1, -2)
    return O.apply_R(Rt, tf - tr), Rt @ Rf


def _d(fun, s):
    """Fourth-order central difference of analytic functions."""
    d = DELTA
    return (-fun(s + 2 * d) + 8 * fun(s + d) - 8 * fun(s - d)
            + fun(s - 2 * d)) / (12 * d)


def lin_vel(f, ref, rep, s):
    v = _d(lambda u: rel(f, ref, u)[0], s)
    return O.apply_R(rel(ref, rep, s)[1], v)


def ang_vel(f, ref, rep, s):
    R = rel(f, ref, s)[1]
    W = _d(lambda u: rel(f, ref, u)[1], s) @ np.swapaxes(R, -1, -2)
    w = np.stack([W[..., 2, 1], W[..., 0, 2], W[..., 1, 0]], -1)
    return O.apply_R(rel(ref, rep, s)[1], w)


def grid(rng, clock, n, lo, hi, jitter=0.25):
    """n timestamps over [lo, hi] s; optionally smoothly irregular."""
    u = np.linspace(0, 1, n)
    m = rng.integers(3)
    if m == 1:
        u = u + jitter * 0.3 * np.sin(2 * np.pi * u) / (2 * np.pi)
    elif m == 2:
        u = u + rng.uniform(-jitter, jitter, n) / n
    u = (u - u[0]) / (u[-1] - u[0])
    return clock.at(lo + u * (hi - lo))


def secs(clock, ts, zero):
    """Motion time of timestamps (inverse of Clock.at)."""
    return clock.rel(ts)


def time_unit(clock):
    """Velocity factor: 'int' stamps count 1/4096 s ticks."""
    return 1 / 4096 if clock.kind == "int" else 1.0


def attach(ctx, rbm, parent, motion, clock, ts=None, flips=None, register=None,
           inverse=None):
    """Create a real frame following ``motion``."""
    rng = ctx.rng
    name = G.fresh_name("mo")
    s = 0.0 if ts is None else secs(clock, ts, 0)
    t, q = motion.pos(s), motion.quat(s)
    inverse = bool(rng.random() < 0.3) if inverse is None else inverse
    if inverse:
        t, q = G.invert(t, q)
    if ts is not None and (rng.random() < 0.4 if flips is None else flips):
        q = q * G.signs(rng, q)
    kw = {} if ts is None else {"timestamps": ts}
    obj = ctx.call(rbm.ReferenceFrame, name, parent=parent.obj, translation=t,
                   rotation=q, inverse=inverse, **kw)
    te, qe = G.invert(t, q) if inverse else (t, q)
    m = O.Frame(name, parent, te, qe, ts, False, obj)
    m.motion, m.inverse = motion, inverse
    m.reg = bool(rng.random() < 0.5) if register is None else register
    if m.reg:
        ctx.call(obj.register)
    return m


def tree(ctx, rbm, n, clock, samples, lo=0.0, hi=2.0, same_grid=False,
         rate=1.0, p_static=0.35, seed=None):
    """Random tree of smooth motions; all moving frames cover [lo, hi]."""
    rng = ctx.rng
    r = G.root(ctx, rbm)
    r.motion = None
    frames = [r]
    common = grid(rng, clock, samples, lo, hi)
    twins = rng.random() < 0.3
    for _ in range(n):
        p = frames[rng.integers(len(frames))]
        st = rng.random() < p_static
        mo = Motion(rng, st, rate)
        ts = None if st else (common if same_grid else clock.twin(
            common) if twins and rng.random() < 0.5 else grid(
            rng, clock, int(samples * rng.uniform(0.9, 1.2)),
            lo - rng.uniform(0, 0.1), hi + rng.uniform(0, 0.1)))
        frames.append(attach(ctx, rbm, p, mo, clock, ts))
    return frames, common


def fine_clock(rng):
    return G.Clock(rng, str(rng.choice(
        ["float", "float0", "int", "ns", "ns", "us"])))

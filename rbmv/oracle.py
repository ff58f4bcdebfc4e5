"""Independent reference model (plain numpy, no rigid_body_motion code).

Rotations are handled as 3x3 matrices wherever possible so that the model does
not share the library's quaternion code path.
"""

import numpy as np


# ---------------------------------------------------------------- quaternions
def qmul(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    aw, ax, ay, az = np.moveaxis(a, -1, 0)
    bw, bx, by, bz = np.moveaxis(b, -1, 0)
    return np.stack(
        [
            aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
        ],
        axis=-1,
    )


def qconj(q):
    return np.asarray(q, float) * np.array([1.0, -1.0, -1.0, -1.0])


def qinv(q):
    q = np.asarray(q, float)
    return qconj(q) / np.sum(q * q, axis=-1, keepdims=True)


def q2R(q):
    """Rotation matrix of a (not necessarily unit) quaternion, (..., 3, 3)."""
    q = np.asarray(q, float)
    n = np.sum(q * q, axis=-1)
    w, x, y, z = np.moveaxis(q, -1, 0)
    s = 2.0 / n
    R = np.empty(q.shape[:-1] + (3, 3))
    R[..., 0, 0] = 1 - s * (y * y + z * z)
    R[..., 0, 1] = s * (x * y - w * z)
    R[..., 0, 2] = s * (x * z + w * y)
    R[..., 1, 0] = s * (x * y + w * z)
    R[..., 1, 1] = 1 - s * (x * x + z * z)
    R[..., 1, 2] = s * (y * z - w * x)
    R[..., 2, 0] = s * (x * z - w * y)
    R[..., 2, 1] = s * (y * z + w * x)
    R[..., 2, 2] = 1 - s * (x * x + y * y)
    return R


def rv2q(v):
    """Rotation vector to unit quaternion."""
    v = np.asarray(v, float)
    th = np.linalg.norm(v, axis=-1, keepdims=True)
    with np.errstate(all="ignore"):
        k = np.where(th > 1e-9, np.sin(th / 2) / np.where(th == 0, 1, th), 0.5)
    return np.concatenate([np.cos(th / 2), k * v], axis=-1)


def qlog(q):
    """Vector part of the logarithm of a unit quaternion, shape (..., 3)."""
    q = np.asarray(q, float)
    vn = np.linalg.norm(q[..., 1:], axis=-1, keepdims=True)
    ang = np.arctan2(vn, q[..., :1])
    with np.errstate(all="ignore"):
        k = np.where(vn > 1e-300, ang / np.where(vn == 0, 1, vn), 0.0)
    return k * q[..., 1:]


def qexp(v):
    """Exponential of a pure-vector quaternion (unit result)."""
    return rv2q(2 * np.asarray(v, float))


def continuous(q):
    """Flip signs so that successive quaternions (axis 0) are closest."""
    q = np.array(q, float)
    if np.isnan(q).any():  # signs start again after missing samples
        for i in range(1, len(q)):
            d = np.sum(q[i] * q[i - 1], axis=-1, keepdims=True)
            q[i] = np.where(d < 0, -q[i], q[i])
    elif len(q) > 1:
        d = np.sum(q[1:] * q[:-1], axis=-1, keepdims=True)
        q[1:] *= np.cumprod(np.where(d < 0, -1.0, 1.0), axis=0)
    return q


def slerp(a, b, tau):
    """Shortest-arc spherical interpolation."""
    b = np.where(np.sum(a * b, axis=-1, keepdims=True) < 0, -b, b)
    d = qmul(qconj(a), b)
    return qmul(a, qexp(qlog(d) * tau))


def squad(q, t_in, t_out):
    """Spherical quadrangle interpolation along axis 0 (Shoemake 1987) with
    the non-uniform time scaling and end conditions of numpy-quaternion."""
    q = continuous(q)
    t_in = np.asarray(t_in, float)
    t_out = np.asarray(t_out, float)
    n = len(t_in)
    if n == 1:
        return np.repeat(q, len(t_out), 0)
    ext = (-1,) + (1,) * (q.ndim - 1)
    # tangent direction from every knot to the next one
    steps = qlog(qmul(qconj(q[:-1]), q[1:]))
    h = np.diff(t_in)
    hx = h.reshape(ext)
    A, B = np.array(q[:-1]), np.array(q[1:])  # control points, per interval
    A[1:] = qmul(q[1:-1], qexp(
        0.25 * (-steps[1:] + steps[:-1] * hx[1:] / hx[:-1])))
    B[:-1] = qmul(q[1:-1], qexp(
        -0.25 * (steps[1:] * hx[:-1] / hx[1:] - steps[:-1])))
    i = np.searchsorted(t_in, t_out, side="right") - 1
    k = np.clip(i, 0, n - 2)
    tau = ((t_out - t_in[k]) / h[k]).reshape(ext)
    out = slerp(slerp(q[k], q[k + 1], tau), slerp(A[k], B[k], tau),
                2 * tau * (1 - tau))
    return np.where((i >= n - 1).reshape(ext), q[n - 1], out)


def lerp(x, t_in, t_out):
    """Linear interpolation along axis 0."""
    x = np.asarray(x, float)
    t_in = np.asarray(t_in, float)
    t_out = np.asarray(t_out, float)
    if len(t_in) == 1:
        return np.repeat(x, len(t_out), 0)
    i = np.clip(np.searchsorted(t_in, t_out, side="right") - 1, 0,
                len(t_in) - 2)
    a = (t_out - t_in[i]) / (t_in[i + 1] - t_in[i])
    a = a.reshape((-1,) + (1,) * (x.ndim - 1))
    return x[i] * (1 - a) + x[i + 1] * a


# ------------------------------------------------------------------ frame tree
class Frame:
    """Model of one frame: transform of points from this frame to its parent."""

    def __init__(self, name, parent=None, t=None, q=None, ts=None,
                 discrete=False, obj=None):
        self.name, self.parent = name, parent
        self.ts, self.discrete = ts, discrete
        self.t = None if parent is None else np.asarray(t, float)
        self.q = None if parent is None else np.asarray(q, float)
        self.obj = obj  # the real frame

    @property
    def kind(self):
        if self.parent is None:
            return "root"
        if self.ts is None:
            return "static"
        return "discrete" if self.discrete else "moving"

    def ancestors(self):
        out, f = [], self
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def at(self, ts):
        """(t, R) of the frame at the timestamps (or static)."""
        if self.ts is None:
            if ts is None:
                return self.t, q2R(self.q)
            n = len(ts)
            return np.repeat(self.t[None], n, 0), np.repeat(
                q2R(self.q)[None], n, 0
            )
        own = tsf(self.ts)
        want = tsf(ts)
        if self.discrete:
            # datetimes are compared as they are, to the nanosecond
            own, want = tsi(self.ts), tsi(ts)
            idx = np.clip(np.searchsorted(own, want, side="right") - 1, 0, None)
            return self.t[idx], q2R(self.q[idx])
        if len(own) == len(want) and np.all(self.ts == ts):
            return self.t, q2R(self.q)
        return lerp(self.t, own, want), q2R(squad(self.q, own, want))


def tsf(ts):
    ts = np.asarray(ts)
    if ts.dtype.kind == "M":
        return ts.astype("datetime64[ns]").astype(np.int64).astype(float)
    return ts.astype(float)


def tsi(ts):
    """Timestamps without loss: whole ns of datetimes, integers, floats."""
    ts = np.asarray(ts)
    return ts.astype("datetime64[ns]").astype(np.int64) if (
        ts.dtype.kind == "M") else ts


def path(a, b):
    """Frames whose transform is applied (up) / inverted (down)."""
    ua, ub = a.ancestors(), b.ancestors()
    common = next((x for x in ua if any(x is y for y in ub)), None)
    if common is None:
        return None
    up = ua[: [x is common for x in ua].index(True)]
    down = ub[: [x is common for x in ub].index(True)][::-1]
    return up, down


def target_ts(up, down, array_ts=None):
    frames = list(up) + list(down)
    cont = [f.ts for f in frames if f.kind == "moving"]
    elements = ([array_ts] if array_ts is not None else []) + cont
    if elements:
        lo = max(e[0] for e in elements)
        hi = min(e[-1] for e in elements)
        e = np.asarray(elements[0])
        return e[(e >= lo) & (e <= hi)]
    disc = [f.ts for f in frames if f.kind == "discrete"]
    if disc:
        return np.unique(np.concatenate(disc))
    return None


def lookup(a, b, array_ts=None):
    """Transform of points from frame a to frame b: (t, R, ts)."""
    up, down = path(a, b)
    ts = target_ts(up, down, array_ts)
    n = () if ts is None else (len(ts),)
    t = np.zeros(n + (3,))
    R = np.zeros(n + (3, 3)) + np.eye(3)
    if ts is not None and len(ts) == 0:
        return t, R, ts
    for f in up:
        ft, fR = f.at(ts)
        t = np.einsum("...ij,...j->...i", fR, t) + ft
        R = fR @ R
    for f in down:
        ft, fR = f.at(ts)
        fRt = np.swapaxes(fR, -1, -2)
        t = np.einsum("...ij,...j->...i", fRt, t - ft)
        R = fRt @ R
    return t, R, ts


def apply_R(R, v):
    return np.einsum("...ij,...j->...i", R, v)


# ------------------------------------------------------------- finite gradient
def gradient(x, t):
    """Second-order finite differences along axis 0 for uneven spacing."""
    x = np.asarray(x, float)
    t = np.asarray(t, float)
    out = np.empty_like(x)
    out[0] = (x[1] - x[0]) / (t[1] - t[0])
    out[-1] = (x[-1] - x[-2]) / (t[-1] - t[-2])
    h = np.diff(t).reshape((-1,) + (1,) * (x.ndim - 1))
    hs, hd = h[:-1], h[1:]
    out[1:-1] = (
        hs**2 * x[2:] + (hd**2 - hs**2) * x[1:-1] - hd**2 * x[:-2]
    ) / (hs * hd * (hd + hs))
    return out

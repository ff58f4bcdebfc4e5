"""Array transforms: generators of layouts and the independent expectation."""

import numpy as np
import rigid_body_motion as rbm

from . import gen as G, oracle as O

WIDTH = {"points": 3, "vectors": 3, "quaternions": 4}


def array_clock(rng, clock, frames):
    """Timestamps for an array relative to the tree's moving frames."""
    mov = [f for f in frames if f.ts is not None]
    m = rng.integers(7)
    if mov and m == 6:  # a frame's grid with other samples in between
        return clock.twin(mov[rng.integers(len(mov))].ts)
    if mov and m == 0:
        return np.array(mov[rng.integers(len(mov))].ts)
    if mov and m == 1:  # subset of a frame's grid
        ts = mov[rng.integers(len(mov))].ts
        k = int(rng.integers(min(2, len(ts)), len(ts) + 1))
        return np.array(ts[np.sort(rng.choice(len(ts), k, replace=False))])
    if mov and m == 2:  # starts / ends exactly at a frame's boundary
        f = mov[rng.integers(len(mov))].ts
        g = clock.make(-0.5, G.grid_steps(rng, int(rng.integers(3, 12)), clock))
        return np.unique(np.concatenate([g, f[:1], f[-1:]]).astype(f.dtype))
    n = G.count(rng, 2, 13)
    ts = clock.make(rng.uniform(-1.0, 1.5), G.grid_steps(rng, n - 1, clock))
    if clock.kind in ("us", "ms") and rng.random() < 0.4:
        return ts.astype("datetime64[ns]")
    return clock.store(ts)


def canonical(rng, kind, n=None, extra=None, dtype=None):
    """Array with time first (if n) and the spatial axis last."""
    if extra is None:
        ne = int(rng.choice([0, 0, 1, 1, 2, 2, 3]))
        extra = tuple(int(x) for x in rng.integers(1, 5, ne))
    lead = (n,) if n is not None else ()
    if kind == "quaternions":
        if n is None:
            a = G.quat(rng, lead + extra)
        else:
            flips = rng.random() < 0.3
            cols = [G.walk_quat(rng, n, flips=flips)
                    for _ in range(int(np.prod(extra, dtype=int)))]
            a = np.stack(cols, 1).reshape((n,) + extra + (4,))
    else:
        a = G.vec(rng, lead + extra)
    dtype = dtype or rng.choice(["f8", "f8", "f8", "f4", "i8"])
    if dtype == "f4":
        a = a.astype(np.float32)
    elif dtype == "i8" and kind != "quaternions":
        a = G.whole(rng, a)
    return a, extra


def place(rng, a, timed):
    """Move the axes of a canonical array; returns arr, axis, time_axis."""
    nd = a.ndim
    if timed:
        ta, ax = (int(x) for x in rng.permutation(nd)[:2])
        arr = np.moveaxis(a, (0, -1), (ta, ax))
    else:
        ta, ax = 0, int(rng.integers(nd))
        arr = np.moveaxis(a, -1, ax)
    return arr, ax, ta


def neg(rng, ax, nd):
    return ax - nd if rng.random() < 0.4 else ax


def apply(kind, t, R, q_src, x):
    """x: (..., C) canonical; t (n|,3), R (n|,3,3) broadcast over the middle."""
    if t.ndim > 1:
        mid = (1,) * (x.ndim - 2)
        t = t.reshape((len(t),) + mid + (3,))
        R = R.reshape((len(R),) + mid + (3, 3))
    if kind == "quaternions":
        return R @ O.q2R(x)
    y = np.einsum("...ij,...j->...i", R, x)
    return y + t if kind == "points" else y


def expect(kind, a, b, canon, ats):
    """Expected canonical result (rotation matrices for quaternions), ts."""
    t, R, ts = O.lookup(a, b, ats)
    x = np.asarray(canon, float)
    if ats is not None:
        if not (len(ats) == len(ts) and np.all(ats == ts)):
            tf = O.tsf(ats)
            if kind == "quaternions":
                x = O.squad(x, tf, O.tsf(ts)) if len(ts) else x[:0]
            else:
                x = O.lerp(x, tf, O.tsf(ts))
    elif ts is not None:
        x = np.repeat(x[None], len(ts), 0)
    return apply(kind, t, R, None, x), ts


def scale_of(a, b, canon):
    m = [np.abs(f.t).max() for f in a.ancestors() + b.ancestors()
         if f.t is not None]
    c = np.abs(np.asarray(canon, float))
    return 1.0 + max(m + [0]) + (c.max() if c.size else 0)


def compare(ctx, kind, got_canon, want, scale, tol, mechanism="transformed",
            **details):
    got = np.asarray(got_canon)
    if kind == "quaternions":
        ctx.check(got.shape == want.shape[:-2] + (4,), mechanism,
                  f"{mechanism}: shape {got.shape}", want=want.shape)
        n = np.linalg.norm(got, axis=-1)
        ctx.close(n, np.ones_like(n), mechanism, max(tol, 1e-6), **details)
        ctx.close(O.q2R(got), want, mechanism, tol, **details)
    else:
        ctx.check(got.shape == want.shape, mechanism,
                  f"{mechanism}: shape {got.shape} != {want.shape}",
                  **details)
        ctx.close(got / scale, want / scale, mechanism, tol, **details)


def tolerance(frames, ats, ts):
    """Rounding only, unless something has to be interpolated."""
    for f in frames:
        if f.kind == "moving" and not (ts is not None
                                       and np.all(np.isin(ts, f.ts))):
            return 2e-7
    return 1e-11

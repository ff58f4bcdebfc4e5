"""Hostile generators for frames, trees, timestamps and array layouts."""

import numpy as np

from . import oracle as O

SPECIAL_Q = [
    [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0],
    [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5],
    [np.sqrt(0.5), 0, 0, np.sqrt(0.5)], [-np.sqrt(0.5), np.sqrt(0.5), 0, 0],
    [0, np.sqrt(0.5), np.sqrt(0.5), 0],
]


def quat(rng, size=()):
    """Random unit quaternions with occasional special rotations."""
    size = tuple(np.atleast_1d(size)) if size != () else ()
    q = rng.standard_normal(size + (4,))
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    mode = rng.integers(6)
    if mode == 0:
        sp = np.array(SPECIAL_Q)[rng.integers(len(SPECIAL_Q), size=size)]
        q = sp.astype(float)
    elif mode == 1:  # tiny rotations
        q = O.rv2q(rng.standard_normal(size + (3,))
                   * 10.0 ** rng.uniform(-7, -2))
        if rng.random() < 0.3:  # close to a half or quarter turn
            q = O.qmul(np.array(SPECIAL_Q)[rng.integers(len(SPECIAL_Q))], q)
    return q


def vec(rng, size=(), scale=None):
    size = tuple(np.atleast_1d(size)) if size != () else ()
    scale = scale if scale is not None else 10.0 ** rng.integers(-2, 4)
    v = rng.standard_normal(size + (3,)) * scale
    if rng.random() < 0.15:
        v = np.round(v)
    if rng.random() < 0.1:
        v[..., rng.integers(3)] = 0.0
    return v


LONG_TOP = 4.7  # log10 of the longest recordings

GRAIN = {"ns": 1024, "us": 32, "ms": 4, "s": 1}
PER_S = {"ns": 10**9, "us": 10**6, "ms": 10**3, "s": 1}


class Clock:
    """One kind of timestamps used consistently in a tree.

    All datetimes are multiples of 256 ns so that their conversion to float
    seconds / nanoseconds is exact and the oracle needs no extra tolerance.
    """

    KINDS = ["float", "float", "float0", "int", "ns", "ns", "us", "ms"]

    def __init__(self, rng, kind=None):
        self.rng = rng
        self.kind = kind or rng.choice(self.KINDS)
        self.cast = None  # smaller number types that hold the same values
        self.loose = 1.0  # derivatives inherit single-precision spacings
        # whether `store` varies the type of the timestamps, and the first
        # tick of integer clocks
        self.mixed, self.first = kind is None and rng.random() < 0.35, 0
        m = rng.random()
        if self.kind in GRAIN:
            year = "2020" if m < 0.8 else str(
                rng.choice(["1969", "1970", "1950", "2035"]))
            self.t0 = np.datetime64(year + "-01-01T00:00:00", "s") + (
                np.timedelta64(int(rng.integers(0, 10**7)), "s"))
        elif self.kind == "float0" and m < 0.15:
            self.cast, self.loose = np.float32, 1e3
        elif self.kind == "int" and m < 0.3:
            self.cast = np.int32 if m < 0.15 else np.uint32
            self.first = 10**5  # unsigned: no negative times
        elif self.kind == "int" and kind is None and m < 0.6:
            self.first = -10**4

    def make(self, start, steps):
        """start: float s offset, steps: positive float s increments."""
        rel = start + np.concatenate([[0.0], np.cumsum(steps)])
        return self.at(rel)

    def at(self, rel):
        rel = np.asarray(rel, float)
        if self.kind == "float0":
            ts = np.round(rel * 4096) / 4096
            return ts if self.cast is None else ts.astype(self.cast)
        if self.kind == "float":
            return np.round(rel * 4096) / 4096 + 1000.0
        if self.kind == "int":
            ts = np.round(rel * 4096).astype(np.int64) + self.first
            return ts if self.cast is None else ts.astype(self.cast)
        u = self.kind
        ticks = np.round(rel * PER_S[u] / GRAIN[u]).astype(np.int64) * GRAIN[u]
        return self.t0.astype(f"datetime64[{u}]") + ticks.astype(
            f"timedelta64[{u}]"
        )

    def rel(self, ts):
        """Offsets (s) of timestamps, the inverse of `at`."""
        if self.kind == "float0":
            return np.asarray(ts, float)
        if self.kind == "float":
            return np.asarray(ts, float) - 1000.0
        if self.kind == "int":
            return (np.asarray(ts, float) - self.first) / 4096
        return (np.asarray(ts).astype("M8[ns]") - self.t0.astype("M8[ns]")
                ).astype(np.int64) / 1e9

    def store(self, ts):
        """Timestamps in another type or unit than those of other frames."""
        if not self.mixed or self.cast is not None or self.rng.random() < 0.5:
            return ts
        if self.kind == "int":  # in between the ticks of the other clocks
            out = ts + self.rng.integers(-3, 4, len(ts)) / 8
        elif self.kind in GRAIN:
            u = self.rng.choice(["ns", "us", "ms"])
            ticks = np.round(self.rel(ts) * PER_S[u] / GRAIN[u]).astype(
                np.int64) * GRAIN[u]
            out = self.t0.astype(f"M8[{u}]") + ticks.astype(f"m8[{u}]")
        else:  # half of the frames may be given by integers
            out = np.round(ts).astype(int)
        return out if np.all(out[1:] > out[:-1]) else ts

    def twin(self, ts, jitter=0.3):
        """Other timestamps with the same number, first and last value."""
        r = np.array(self.rel(ts))
        if len(r) < 3:
            return np.array(ts)
        gap = np.minimum(np.diff(r)[1:], np.diff(r)[:-1])
        d = self.rng.uniform(-jitter, jitter, len(gap)) * gap
        if self.rng.random() < 0.4:  # only one of them is different
            d[np.arange(len(d)) != self.rng.integers(len(d))] = 0.0
        elif self.rng.random() < 0.3:  # the same mean as well
            d = d - d.mean() if np.all(np.diff(r)[1:] > 3 * np.abs(
                d.mean())) else d
        r[1:-1] += d
        out = self.at(r)
        ts = np.asarray(ts)
        out = out.astype(np.result_type(out, ts))
        out[0], out[-1] = ts[0], ts[-1]
        ok = np.all(out[1:] > out[:-1])
        return out if ok else np.array(ts)

    def seconds(self, ts):
        """Elapsed time as the library defines it: s for datetimes."""
        ts = np.asarray(ts)
        if ts.dtype.kind == "M":
            return (ts - ts[0]).astype("timedelta64[ns]").astype(
                np.int64
            ) / 1e9
        return ts.astype(float)


def grid_steps(rng, n, clock):
    """Steps (s), regular or irregular, large enough for the clock's grain."""
    base = rng.choice([0.05, 0.25, 1.0])
    mode = rng.integers(3)
    if mode == 0:
        s = np.full(n, base)
    elif mode == 1:
        s = base * rng.uniform(0.4, 1.6, n)
    else:
        s = base * np.exp(rng.uniform(-1.2, 1.2, n))
    return np.maximum(s, 0.012)


def signs(rng, q):
    """Signs for quaternions of the same rotations: random or canonical."""
    m, shape = rng.random(), q.shape[:-1] + (1,)
    if m < 0.5:
        return np.where(rng.random(shape) < 0.4, -1.0, 1.0)
    if m < 0.7:  # real part not negative, or not positive
        return np.where(q[..., :1] < 0, -1.0, 1.0) * (1 if m < 0.65 else -1)
    if m < 0.85 and len(q):  # a single one
        s = np.ones(shape)
        s[rng.integers(len(q))] = -1.0
        return s
    if m < 0.95 and len(q):  # from one sample on
        s = np.ones(shape)
        s[rng.integers(len(q)):] = -1.0
        return s
    return -np.ones(shape)


def unit(rng):
    v = rng.standard_normal(3)
    return v / np.linalg.norm(v)


def walk_quat(rng, n, max_step=0.8, flips=None):
    """Random quaternion time series with bounded steps."""
    q = np.empty((n, 4))
    q[0] = quat(rng)
    ax = rng.standard_normal(3)
    if n > 400:  # oscillations about two axes, at most max_step per sample
        k, a = np.arange(n)[:, None], rng.uniform(0.2, 1.0, 2)
        w = rng.uniform(0.02, 0.45, 2) * max_step / a
        v = [unit(rng) * a[j] * np.sin(w[j] * k + rng.uniform(0, 6))
             for j in (0, 1)]
        q = O.qmul(q[0], O.qmul(O.rv2q(v[0]), O.rv2q(v[1])))
    for i in range(1, n if n <= 400 else 1):
        ax = ax * 0.6 + rng.standard_normal(3) * 0.6
        v = ax / np.linalg.norm(ax) * rng.uniform(0.0, max_step)
        q[i] = O.qmul(q[i - 1], O.rv2q(v))
        q[i] /= np.linalg.norm(q[i])
    if flips is None:
        flips = rng.random() < 0.35
    if flips:
        q = q * signs(rng, q)
    return q


def dress(rng, a, allow_list=True):
    """The same numbers in another acceptable container/layout/dtype."""
    m = rng.integers(7)
    a = np.asarray(a)
    if m == 0 and allow_list:
        return a.tolist()
    if m == 1 and a.ndim:
        return np.asfortranarray(a)
    if m == 2 and a.ndim:  # negative-stride view
        return np.ascontiguousarray(a[::-1])[::-1]
    if m == 3:  # read-only
        b = a.copy()
        b.flags.writeable = False
        return b
    if m == 4 and a.ndim and a.dtype.kind == "f":  # strided view
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,))
        b[..., ::2] = a
        return b[..., ::2]
    return a


INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]


def as_int(rng, *arrs, cap=2.0**50):
    """Arrays of the same proportions with whole numbers of an integer type.

    Magnitudes range up to what the type represents (and floats do exactly),
    so that sums or products of two values need not fit in the type.
    """
    dt = np.dtype(str(rng.choice(INTS)))
    top = min(float(np.iinfo(dt).max), cap)
    top = 10.0 ** rng.uniform(0.3, np.log10(top))
    out = []
    for a in arrs:
        m = np.abs(a).max() if np.size(a) else 1.0
        a = np.round(np.asarray(a, float) * (top / (m if m > 0 else 1.0)))
        out.append((np.abs(a) if dt.kind == "u" else a).astype(dt))
    return out


def whole(rng, a, share=1.0):
    """Whole numbers near ``a`` in a random integer type that holds them."""
    if rng.random() >= share:
        return a
    a = np.round(a)
    lo, hi = (a.min(), a.max()) if np.size(a) else (0, 0)
    fit = [d for d in INTS if np.iinfo(d).min <= lo and hi <= np.iinfo(d).max]
    return a.astype(str(rng.choice(fit))) if fit else a


def invert(t, q):
    R = O.q2R(q)
    return -np.einsum("...ji,...j->...i", R, t), O.qconj(q) / np.sum(
        np.asarray(q) ** 2, axis=-1, keepdims=True
    )


def quat_flavour(rng, q):
    if rng.random() < 0.1 and q.ndim == 1:
        return np.round(q) if np.allclose(np.abs(np.round(q)), np.abs(q)) else q
    return q


_counter = [0]


def fresh_name(prefix="f"):
    _counter[0] += 1
    return f"{prefix}{_counter[0]}"


def add_frame(ctx, rbm, parent, clock, kind, window=(0.0, 6.0), register=None,
              name=None, nmin=4, nmax=14, scale=None, max_step=0.8,
              dressed=True):
    """Create a real frame and its model below ``parent`` (a model)."""
    rng = ctx.rng
    name = name or fresh_name()
    register = rng.random() < 0.5 if register is None else register
    inverse = bool(rng.random() < 0.35)
    d = (lambda x: dress(rng, x)) if dressed else (lambda x: x)
    ident_t = rng.random() < 0.15
    ident_q = rng.random() < 0.15
    ts = None
    if kind == "static":
        t = np.zeros(3) if ident_t else vec(rng, (), scale)
        q = np.array([1.0, 0, 0, 0]) if ident_q else quat(rng)
    else:
        n = int(rng.integers(nmin, nmax))
        lo, hi = window
        if nmin == 4 and nmax == 14:
            m = rng.random()
            if m < 0.06:  # the shortest possible series
                n = int(rng.integers(1 if kind == "discrete" else 2, 4))
            elif m < 0.066:
                n = int(10 ** rng.uniform(
                    2.5, 3.3 if kind == "discrete" else LONG_TOP))
                ctx.events["series:long"] += 1
        steps = grid_steps(rng, n - 1, clock)
        if n > 1:
            steps = steps * (hi - lo) * rng.uniform(0.7, 1.0) / steps.sum()
        steps = np.maximum(steps, 0.012 if n < 300 or clock.kind == "ms" else 1e-3)
        start = lo + rng.uniform(0, 0.2) * (hi - lo)
        ts = clock.store(clock.make(start, steps))
        up, m = parent, rng.random()
        while up is not None and up.ts is None:
            up = up.parent
        if up is not None and m < 0.12 and nmin == 4:
            # the grid of another frame, or one that is almost the same
            ts = np.array(up.ts) if m < 0.04 else clock.twin(up.ts)
            n = len(ts)
            ctx.events["series:twin"] += 1
        t = (
            np.zeros((n, 3))
            if ident_t
            else np.cumsum(vec(rng, n, scale if scale else 1.0), 0)
        )
        q = (
            np.tile([1.0, 0, 0, 0], (n, 1))
            if ident_q
            else (walk_quat(rng, n, max_step) if kind == "moving"
                  else quat(rng, n))
        )
    t = whole(rng, t, 0.05)
    discrete = kind == "discrete"
    # who is handed to the constructor: the model parent by name or object
    pref = parent.obj
    if rng.random() < 0.5 and parent.reg:
        pref = parent.name
    kw = {}
    if not ident_t or rng.random() < 0.3:
        kw["translation"] = d(t)
    if not ident_q or rng.random() < 0.3:
        kw["rotation"] = d(q)
    if ts is not None:
        kw["timestamps"] = ts if rng.random() < 0.7 else dress(
            rng, ts, allow_list=clock.kind in ("float", "float0", "int")
        )
        if discrete or rng.random() < 0.2:
            kw["discrete"] = discrete
    if inverse or rng.random() < 0.2:
        kw["inverse"] = inverse
    ctor = rng.integers(3)
    if register and ctor == 0:
        ctx.call(rbm.register_frame, name, parent=pref, **kw)
        obj = registered_obj(rbm, name)
    else:
        obj = build(ctx, rbm, name, pref, kw, ctor)
        if register:
            ctx.call(obj.register)
    t = np.asarray(t, float)
    te, qe = invert(t, q) if inverse else (t, q)
    ctx.events["frame:" + kind + ("-inverse" if inverse else "")] += 1
    m = O.Frame(name, parent, te, qe, ts, discrete, obj)
    m.reg, m.inverse = register, inverse
    return m


def build(ctx, rbm, name, parent, kw, ctor):
    """Use one of the constructors, depending on what is given."""
    RF = rbm.ReferenceFrame
    ts = kw.get("timestamps")
    if ctor == 1 and ts is not None:
        import xarray as xr

        ts_a = np.asarray(ts)
        extra = {k: kw[k] for k in ("inverse", "discrete") if k in kw}
        if "translation" in kw and "rotation" in kw:
            ds = xr.Dataset(
                {
                    "pos": (("tt", "ax"), np.asarray(kw["translation"])),
                    "ori": (("tt", "qx"), np.asarray(kw["rotation"])),
                },
                {"tt": ts_a},
            )
            return ctx.call(
                RF.from_dataset, ds, "pos", "ori", "tt", parent, name, **extra
            )
        if "translation" in kw:
            da = xr.DataArray(
                np.asarray(kw["translation"]), {"tt": ts_a}, ("tt", "ax")
            )
            return ctx.call(
                RF.from_translation_dataarray, da, "tt", parent, name, **extra
            )
        if "rotation" in kw:
            da = xr.DataArray(
                np.asarray(kw["rotation"]), {"tt": ts_a}, ("tt", "qx")
            )
            return ctx.call(
                RF.from_rotation_dataarray, da, "tt", parent, name, **extra
            )
    if ctor == 2 and ts is None and "translation" not in kw and "rotation" in kw:
        extra = {"inverse": kw["inverse"]} if "inverse" in kw else {}
        return ctx.call(
            RF.from_rotation_matrix, O.q2R(np.asarray(kw["rotation"], float)),
            parent, name, **extra
        )
    return ctx.call(RF, name, parent=parent, **kw)


def registered_obj(rbm, name):
    """The registered frame object, via public calls only."""
    # lookups by name resolve to the registered frame; the object itself is
    # obtained from a child constructed with the name as parent
    probe = rbm.ReferenceFrame("__probe__" + name, parent=name)
    obj = probe.parent
    probe.parent = None
    return obj


def root(ctx, rbm, register=None, name=None):
    name = name or fresh_name("root")
    register = ctx.rng.random() < 0.6 if register is None else register
    obj = ctx.call(rbm.ReferenceFrame, name)
    if register:
        ctx.call(obj.register)
    m = O.Frame(name, None, obj=obj)
    m.reg, m.inverse = register, False
    return m


def ref(ctx, model):
    """Refer to a frame by object or by registered name."""
    if model.reg and ctx.rng.random() < 0.5:
        return model.name
    return model.obj


def tree(ctx, rbm, n=None, kinds=("static",), clock=None, shape=None, **kw):
    """Random tree; returns list of models (first one is the root)."""
    rng = ctx.rng
    n = n or int(rng.integers(2, 8))
    clock = clock or Clock(rng)
    frames = [root(ctx, rbm)]
    shape = shape or rng.choice(["random", "chain", "star", "deep"])
    for _ in range(n):
        if shape == "random":
            p = frames[rng.integers(len(frames))]
        elif shape == "chain":
            p = frames[-1]
        elif shape == "star":
            p = frames[0]
        else:
            p = frames[max(0, len(frames) - 1 - int(rng.integers(2)))]
        frames.append(
            add_frame(ctx, rbm, p, clock, rng.choice(kinds), **kw)
        )
    return frames, clock, shape


def shape(rng, nd, hi=5, big=0.004):
    """Array shape with small sizes; rarely one dimension is long."""
    s = [int(x) for x in rng.integers(1, hi, nd)]
    if nd and rng.random() < 0.15:  # as long as a vector or a quaternion
        s = [int(rng.choice([x, 3, 4])) for x in s]
    if nd and rng.random() < big:
        s = [min(x, 2) for x in s]
        s[rng.integers(nd)] = int(10 ** (
            rng.uniform(1.3, 4.0) if rng.random() < 0.9
            else rng.uniform(4.0, 5.3)))
    return tuple(s)


def count(rng, lo, hi, big=0.004, top=None):
    """A small number of samples, rarely that of a long recording."""
    n = int(rng.integers(lo, hi))
    if rng.random() >= big:
        return n
    if top is None:
        return int(10 ** (rng.uniform(2.5, 4.8) if rng.random() < 0.85
                          else rng.uniform(4.8, 5.3)))
    return int(10 ** rng.uniform(2.5, top))


def rank(rng):
    """Number of leading dimensions: mostly small, sometimes 4 or 5."""
    return int(rng.choice(6, p=[0.22, 0.25, 0.23, 0.2, 0.06, 0.04]))

"""C28: results follow changes of units, clocks and of the world frame."""
import numpy as np
import xarray as xr
import rigid_body_motion as rbm

from .. import gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C28",
    "units and clocks",
    "the same random tree, queries and data given in two systems of units: "
    "lengths times 2^k and times times 2^j (|k|, |j| up to 40), shifted, datetimes "
    "instead of seconds, and an extra rigid motion of the whole world. "
    "Scaling by powers of "
    "two is exact, so results must agree to rounding errors after the "
    "conversion of their units. Signature = (function, change of units).",
    quick=8000, thorough=80000,
    assumptions=["magnitudes of lengths and times within 1e-12..1e12"],
)
prop.require("monitor:length-units", "monitor:time-units",
             "monitor:world-motion", "monitor:datetime",
             "call:lookup_transform", "call:lookup_twist",
             "call:transform_points", "call:transform_linear_velocity",
             "call:estimate_linear_velocity", "call:estimate_angular_velocity",
             "call:iterative_closest_point", "call:best_fit_transform",
             "call:transform_coordinates", "call:from_dataset",
             "filter:cutoff", "filter:outlier")
REF = np.datetime64("2021-03-04T05:06:07", "ns")


class Units:
    def __init__(self, rng):
        self.k = int(rng.integers(-40, 41)) if rng.random() < 0.8 else 0
        self.L = 2.0**self.k
        self.j = int(rng.integers(-40, 41)) if rng.random() < 0.6 else 0
        self.dt = bool(rng.random() < 0.3)  # datetimes in the second system
        if self.dt:
            self.j = max(-3, min(self.j, 6))
        # whole multiples of 256 ns, which floats hold exactly
        self.T = 2.0**self.j * (2**30 / 1e9 if self.dt else 1.0)
        self.shift = 0.0
        if rng.random() < 0.5:
            self.shift = float(rng.integers(-500, 500))
        self.world = bool(rng.random() < 0.3)

    def time(self, t):
        t = np.asarray(t)
        if not self.dt:
            return (t + self.shift) * self.T
        ticks = np.round(t * 64 * 2.0**self.j * 2**24).astype("int64")
        return REF + (ticks + int(self.shift) * 2**24).astype(
            "timedelta64[ns]")

    def tag(self):
        return (np.sign(self.k), np.sign(self.j), self.dt, self.world)


def stamps(rng, n, start):
    """Increasing multiples of 1/64 s."""
    return (start + np.cumsum(rng.integers(4, 30, n))) / 64.0


class Tree:
    """Raw data of a random tree, to be registered in any units."""

    def __init__(self, rng, n):
        self.spec = [("w", None, None, None, None, False, False)]
        self.names = ["w"]
        still = rng.random() < 0.2
        for i in range(n):
            p = self.names[rng.integers(len(self.names))]
            kind = "static" if still else ["static", "moving", "moving",
                                           "discrete"][rng.integers(4)]
            inv = bool(rng.random() < 0.3)
            if kind == "static":
                t, q, ts = rng.standard_normal(3), G.quat(rng), None
            else:
                m = int(rng.integers(12, 40))
                ts = stamps(rng, m, int(rng.integers(0, 60)))
                t = np.cumsum(rng.standard_normal((m, 3)), 0)
                q = G.walk_quat(rng, m)
            self.spec.append((f"f{i}", p, t, q, ts, kind == "discrete", inv))
            self.names.append(f"f{i}")
        self.motion = (rng.standard_normal(3), G.quat(rng))

    def build(self, ctx, prefix, u=None):
        """Register the frames; models by name."""
        L = u.L if u else 1.0
        out = {}
        for name, p, t, q, ts, disc, inv in self.spec:
            full = prefix + name
            if p is None:
                if u and u.world:
                    rbm.register_frame(prefix + "outer")
                    rbm.register_frame(
                        full, parent=prefix + "outer",
                        translation=self.motion[0] * L,
                        rotation=self.motion[1])
                else:
                    rbm.register_frame(full)
                out[name] = O.Frame(full)
                continue
            st = None if ts is None else (u.time(ts) if u else ts)
            if ts is not None and ctx.rng.random() < 0.2:
                ds = xr.Dataset({"t": (("time", "c"), t * L),
                                 "r": (("time", "q"), q)}, {"time": st})
                ctx.call(rbm.ReferenceFrame.from_dataset, ds, "t", "r",
                         "time", prefix + p, full, inverse=inv,
                         discrete=disc).register()
            else:
                ctx.call(rbm.register_frame, full, parent=prefix + p,
                         translation=t * L, rotation=q, timestamps=st,
                         discrete=disc, inverse=inv)
            a, b = (G.invert(t, q) if inv else (t, q))
            out[name] = O.Frame(full, out[p], a, b, ts, disc)
        return out


def same_time(ctx, u, got, want, what):
    if want is None:
        ctx.check(got is None, "time-units", "timestamps in one system only")
        return
    exp = u.time(want)
    if u.dt:
        ctx.check(got.dtype.kind == "M" and got.shape == exp.shape and bool(
            np.all(got.astype("M8[ns]") == exp)), "datetime",
            f"timestamps of {what} differ", got=got, want=exp)
        ctx.events["monitor:time-units"] += 1
    else:
        ctx.close(np.asarray(got) / u.T, exp / u.T, "time-units", 1e-9,
                  f"timestamps of {what}")


def same_value(ctx, u, got, want, length, time, what, tol=1e-9):
    """got (second units) against want (first) of dimension L^length T^time."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    f = u.L**length * u.T**time
    ctx.check(got.shape == want.shape, "length-units", f"shape of {what}",
              got=got.shape, want=want.shape)
    if not want.size:
        return
    mech = "length-units" if length else "time-units"
    fin = np.isfinite(want)
    m = float(np.abs(want[fin]).max()) if fin.any() else 1.0
    ctx.close(got / f / (m or 1.0), want / (m or 1.0), mech, tol,
              f"{what} does not follow the change of units")
    if u.world:
        ctx.events["monitor:world-motion"] += 1


def pose(ctx, u, got, want, what, tol=1e-9):
    same_value(ctx, u, got[0], want[0], 1, 0, what, tol)
    same_value(ctx, u, got[1], want[1], 0, 0, what, tol)
    same_time(ctx, u, got[2], want[2], what)


@prop.scenario(3)
def frames(ctx):
    rng = ctx.rng
    rbm.clear_registry()
    tree, u = Tree(rng, int(rng.integers(2, 6))), Units(rng)
    m = tree.build(ctx, "a_")
    tree.build(ctx, "b_", u)
    ctx.describe(spec=tree.spec, L=u.k, T=u.j, dt=u.dt, shift=u.shift)
    for _ in range(3):
        x, y, z = (tree.names[rng.integers(len(tree.names))]
                   for _ in range(3))
        (query if rng.random() < 0.7 else velocity)(ctx, tree, m, u, x, y, z)


def overlap(m, x, y, ats=None):
    up, down = O.path(m[x], m[y])
    return O.target_ts(up, down, array_ts=ats)


def both(ctx, fn, args, u, tree, kw1, kw2):
    out = []
    for pre, kw in (("a_", kw1), ("b_", kw2)):
        a = [pre + v if isinstance(v, str) and v in tree.names else v
             for v in args[0 if pre == "a_" else 1]]
        k = {n: pre + v if isinstance(v, str) and v in tree.names else v
             for n, v in kw.items()}
        out.append((fn, a, k))
    try:
        want = fn(*out[0][1], **out[0][2])
    except Exception:  # outside of the domain; the others decide these
        want = None
    if want is None:
        e = None
        try:
            fn(*out[1][1], **out[1][2])
        except Exception as err:
            e = err
        ctx.check(e is not None, "length-units",
                  f"{fn.__name__} fails in one system of units only")
        return None, None
    ctx.events["call:" + fn.__name__] += 1
    return want, ctx.call(out[1][0], *out[1][1], **out[1][2])


def query(ctx, tree, m, u, x, y, z):
    rng = ctx.rng
    k = int(rng.integers(5))
    if k < 2:
        fn = (rbm.lookup_transform, rbm.lookup_pose)[k]
        want, got = both(ctx, fn, [[x, y]] * 2, u, tree,
                         *[dict(return_timestamps=True)] * 2)
        if want is not None:
            pose(ctx, u, got, want, fn.__name__)
            ctx.nontrivial(fn.__name__, u.tag())
        return
    n = int(rng.integers(8, 30))
    ats = stamps(rng, n, int(rng.integers(0, 60)))
    kind = ("points", "vectors", "quaternions")[k - 2]
    arr = G.walk_quat(rng, n) if k == 4 else rng.standard_normal((n, 3))
    L = 1 if k < 4 else 0
    t1 = dict(return_timestamps=True)
    t2 = dict(t1)
    if rng.random() < 0.7 or overlap(m, x, y) is not None:
        t1["timestamps"], t2["timestamps"] = ats, u.time(ats)
    fn = getattr(rbm, "transform_" + kind)
    want, got = both(ctx, fn, [[arr, y, x], [arr * u.L**L, y, x]], u, tree,
                     t1, t2)
    if want is not None:
        same_value(ctx, u, got[0], want[0], L, 0, fn.__name__)
        same_time(ctx, u, got[1], want[1], fn.__name__)
        ctx.nontrivial(fn.__name__, u.tag())


def options(ctx, n, u, linear=True, angular=True):
    """Filter options in both units."""
    rng = ctx.rng
    a, b = {}, {}
    if n > 60 and rng.random() < 0.4:
        a["cutoff"] = b["cutoff"] = float(rng.uniform(0.1, 0.6))
        ctx.events["filter:cutoff"] += 1
    if rng.random() < 0.3 and linear != angular:
        th = float(rng.uniform(2.0, 6.0)) if linear else float(
            rng.uniform(0.5, 2.0))
        a["outlier_thresh"] = th
        b["outlier_thresh"] = th * (u.L if linear else 1.0)
        ctx.events["filter:outlier"] += 1
    if angular and rng.random() < 0.5:
        a["mode"] = b["mode"] = ("quaternion", "rotation_vector")[
            rng.integers(2)]
    return a, b


def velocity(ctx, tree, m, u, x, y, z):
    rng = ctx.rng
    k = int(rng.integers(5))
    base = overlap(m, x, y)
    n = 0 if base is None else len(base)
    if k < 3:
        fn = (rbm.lookup_twist, rbm.lookup_linear_velocity,
              rbm.lookup_angular_velocity)[k]
        a, b = options(ctx, 0, u, k < 2, k != 1)
        if "outlier_thresh" in a:  # rounding at the threshold
            del a["outlier_thresh"], b["outlier_thresh"]
        want, got = both(ctx, fn, [[x, y, z]] * 2, u, tree, dict(
            return_timestamps=True, **a), dict(return_timestamps=True, **b))
        if want is None:
            return
        if k < 2:
            same_value(ctx, u, got[0], want[0], 1, -1, fn.__name__, 1e-7)
        if k != 1:
            same_value(ctx, u, got[-2], want[-2], 0, -1, fn.__name__, 1e-7)
        same_time(ctx, u, got[-1], want[-1], fn.__name__)
    else:
        n = int(rng.integers(12, 30))
        ats = stamps(rng, n, int(rng.integers(0, 60)))
        arr = rng.standard_normal((n, 3))
        what = ("reference_frame", "moving_frame", "representation_frame")[
            rng.integers(3)]
        kw = dict(what=what, return_timestamps=True)
        L = 0
        fn = rbm.transform_angular_velocity
        if k == 4:
            fn, L = rbm.transform_linear_velocity, 1
            if what == "reference_frame":
                kw["moving_frame"] = z
            elif what == "moving_frame":
                kw["reference_frame"] = z
        want, got = both(
            ctx, fn, [[arr, y, x], [arr * u.L**L / u.T, y, x]], u, tree,
            dict(kw, timestamps=ats), dict(kw, timestamps=u.time(ats)))
        if want is None:
            return
        same_value(ctx, u, got[0], want[0], L, -1, fn.__name__, 1e-7)
        same_time(ctx, u, got[1], want[1], fn.__name__)
    ctx.nontrivial(fn.__name__, u.tag())


@prop.scenario(2)
def functions(ctx):
    rng = ctx.rng
    u = Units(rng)
    u.world = False
    n = int(rng.integers(20, 120))
    ts = stamps(rng, n, int(rng.integers(0, 60)))
    x = np.cumsum(rng.standard_normal((n, 3)), 0)
    q = G.walk_quat(rng, n)
    v, w = rng.standard_normal((n, 3)), rng.standard_normal((n, 3))
    k = int(rng.integers(9))
    ctx.describe(L=u.k, T=u.j, dt=u.dt, shift=u.shift, f=k)

    def pair(fn, a1, a2, kw1=None, kw2=None):
        ctx.events["call:" + fn.__name__] += 1
        return (ctx.call(fn, *a1, **(kw1 or {})),
                ctx.call(fn, *a2, **(kw2 or kw1 or {})))

    if k == 0:
        a, b = options(ctx, n, u, True, False)
        want, got = pair(rbm.estimate_linear_velocity, [x], [x * u.L],
                         dict(timestamps=ts, **a),
                         dict(timestamps=u.time(ts), **b))
        same_value(ctx, u, got, want, 1, -1, "estimate_linear_velocity", 1e-7)
    elif k == 1:
        a, b = options(ctx, n, u, False, True)
        a.pop("outlier_thresh", 0), b.pop("outlier_thresh", 0)
        want, got = pair(rbm.estimate_angular_velocity, [q], [q],
                         dict(timestamps=ts, **a),
                         dict(timestamps=u.time(ts), **b))
        same_value(ctx, u, got, want, 0, -1, "estimate_angular_velocity",
                   1e-7)
    elif k == 2:
        to = np.sort(rng.uniform(ts[0], ts[-1], 9))
        to = np.unique(np.clip(np.round(to * 64) / 64, ts[0], ts[-1]))
        want, got = pair(rbm.qinterp, [q, ts, to],
                         [q, u.time(ts), u.time(to)])
        same_value(ctx, u, got, want, 0, 0, "qinterp")
    elif k == 3:
        s = 2.0**int(rng.integers(-40, 41))
        want, got = pair(rbm.shortest_arc_rotation, [v, w],
                         [v * u.L, w * s])
        same_value(ctx, u, got, want, 0, 0, "shortest_arc_rotation")
        ctx.events["monitor:length-units"] += 1
    elif k == 4:
        s = 2.0**int(rng.integers(-40, 41))
        want, got = pair(rbm.best_fit_rotation, [v, w], [v * u.L, w * s])
        same_value(ctx, u, got, want, 0, 0, "best_fit_rotation", 1e-7)
    elif k == 5:
        want, got = pair(rbm.best_fit_transform, [v, w], [v * u.L, w * u.L])
        same_value(ctx, u, got[0], want[0], 1, 0, "best_fit_transform", 1e-6)
        same_value(ctx, u, got[1], want[1], 0, 0, "best_fit_transform", 1e-6)
    elif k == 6:
        t, r = rng.standard_normal(3) * 0.1, O.rv2q(
            rng.standard_normal(3) * 0.1)
        y = O.apply_R(O.q2R(r), v) + t
        tol = 1e-4
        want, got = pair(rbm.iterative_closest_point, [v, y],
                         [v * u.L, y * u.L], dict(tolerance=tol),
                         dict(tolerance=tol * u.L))
        same_value(ctx, u, got[0], want[0], 1, 0, "iterative_closest_point",
                   1e-6)
        same_value(ctx, u, got[1], want[1], 0, 0, "iterative_closest_point",
                   1e-6)
    elif k == 7:
        one = rng.random() < 0.5
        a = [v, "spherical", "cartesian"] if one else [
            v[:, :2], "polar", "cartesian"]
        want, got = pair(rbm.transform_coordinates, a,
                         [a[0] * u.L] + a[1:])
        same_value(ctx, u, got[:, 0], want[:, 0], 1, 0, "radius")
        same_value(ctx, u, got[:, 1:], want[:, 1:], 0, 0, "angles")
        back = ctx.call(rbm.transform_coordinates, got, "cartesian", a[1])
        same_value(ctx, u, back, a[0], 1, 0, "coordinates")
    else:
        s = 2.0**int(rng.integers(-40, 41))
        want, got = pair(rbm.rotate_vectors, [q, v], [q * s, v * u.L])
        same_value(ctx, u, got, want, 1, 0, "rotate_vectors")
        a, b = (ctx.call(rbm.qinv, q), ctx.call(rbm.qinv, q * s))
        same_value(ctx, u, b * s, a, 0, 0, "qinv")
        a, b = (ctx.call(rbm.qmul, q, q[::-1]), ctx.call(
            rbm.qmul, q * s, q[::-1] * u.L))
        same_value(ctx, u, b / s / u.L, a, 0, 0, "qmul")
        # units of the angles do not depend on the number of samples
        ctx.events["call:qmul"] += 1
    ctx.nontrivial(k, u.tag())

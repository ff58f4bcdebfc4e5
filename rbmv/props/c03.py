"""C03: event-based (discrete) frames hold their last transform."""
import numpy as np
import rigid_body_motion as rbm

from .. import gen as G, oracle as O
from ..core import Prop
from .c02 import do_lookup, verify_lookup

prop = Prop(
    "C03",
    "discrete frames",
    "random trees with discrete frames (1-8 events, possibly before, inside, "
    "after or exactly on the query grid) mixed with static and continuous "
    "frames and timestamped arrays; results compared with a hold-last oracle. "
    "Non-trivial: a discrete frame on the path; signature = (clock, kinds on "
    "the path, events before/inside/after/tie pattern).",
    quick=10000, thorough=60000,
    assumptions=["strictly increasing event timestamps"],
)
prop.require("monitor:timestamps", "monitor:translation", "monitor:rotation",
             "events:before-first", "events:after-last", "events:tie",
             "events:single", "events:fine", "grid:union", "monitor:array-transform")


def ev_classify(ctx, a, b, ts, clock, extra=""):
    up, down = O.path(a, b)
    disc = [f for f in up + down if f.kind == "discrete"]
    if not disc:
        return
    if ts is not None and not [f for f in up + down if f.kind == "moving"]:
        ctx.events["grid:union"] += 1
    pat = []
    for f in disc:
        w = O.tsf(ts)
        e = O.tsf(f.ts)
        if len(e) == 1:
            ctx.events["events:single"] += 1
        if len(w):
            bf, af, ti = w[0] < e[0], w[-1] > e[-1], bool(np.isin(w, e).any())
            if bf:
                ctx.events["events:before-first"] += 1
            if af:
                ctx.events["events:after-last"] += 1
            if ti:
                ctx.events["events:tie"] += 1
            pat.append((bf, af, ti, len(e) == 1))
    ctx.nontrivial(clock.kind, tuple(f.kind[0] for f in up),
                   tuple(f.kind[0] for f in down), tuple(pat), extra)


def event_frame(ctx, parent, clock, lo, hi, base=None):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    if base is not None and rng.random() < 0.7:
        n = min(n, len(base))
        ts = np.sort(rng.choice(base, n, replace=False))
        if rng.random() < 0.3:
            ts = np.unique(np.concatenate(
                [ts, clock.at(np.array([lo - 1.0]))]))
    else:
        ts = np.unique(clock.at(np.sort(rng.uniform(lo - 2, hi + 2, n))))
    ts = clock.store(ts)
    n = len(ts)
    t, q = G.vec(rng, n, 2.0), G.quat(rng, n)
    inv = bool(rng.random() < 0.35)
    kw = {}
    if rng.random() < 0.85:
        kw["translation"] = t
    else:
        t = np.zeros((n, 3))
    if rng.random() < 0.85:
        kw["rotation"] = q
    else:
        q = np.tile([1.0, 0, 0, 0], (n, 1))
    kw.update(timestamps=ts, discrete=True, inverse=inv)
    name = G.fresh_name("d")
    how = rng.integers(3)
    if how == 0:
        reg = True
        ctx.call(rbm.register_frame, name, parent=parent.obj, **kw)
        obj = G.registered_obj(rbm, name)
    else:
        reg = False
        obj = G.build(ctx, rbm, name, parent.obj, kw, how)
    te, qe = G.invert(t, q) if inv else (t, q)
    m = O.Frame(name, parent, te, qe, ts, True, obj)
    m.reg, m.inverse = reg, inv
    return m


def make_tree(ctx, kinds):
    rng = ctx.rng
    clock = G.Clock(rng)
    frames = [G.root(ctx, rbm)]
    base = clock.make(0.0, np.full(24, 0.25))
    for _ in range(int(rng.integers(2, 7))):
        p = frames[rng.integers(max(0, len(frames) - 3), len(frames))]
        k = rng.choice(kinds)
        if k == "discrete":
            frames.append(event_frame(ctx, p, clock, 0.0, 6.0, base))
        elif k == "moving" and rng.random() < 0.5:
            idx = np.sort(rng.choice(len(base), int(rng.integers(3, 12)),
                                     replace=False))
            n = len(idx)
            t, q = G.vec(rng, n, 2.0), G.walk_quat(rng, n)
            obj = ctx.call(rbm.ReferenceFrame, G.fresh_name("m"), parent=p.obj,
                           translation=t, rotation=q, timestamps=base[idx])
            m = O.Frame(obj.name, p, t, q, base[idx], False, obj)
            m.reg, m.inverse = False, False
            frames.append(m)
        else:
            frames.append(G.add_frame(ctx, rbm, p, clock, k))
    return frames, clock, base


@prop.scenario(3)
def mixed(ctx):
    frames, clock, base = make_tree(ctx, ["static", "moving", "discrete",
                                          "discrete"])
    rng = ctx.rng
    ctx.describe(clock=clock.kind, frames=[
        (f.name, f.parent and f.parent.name, f.kind, f.inverse,
         None if f.ts is None else len(f.ts)) for f in frames])
    for _ in range(5):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        form, out = do_lookup(ctx, a, b)
        _, _, ts = verify_lookup(ctx, a, b, out)
        ev_classify(ctx, a, b, ts, clock)


@prop.scenario(2)
def only_discrete(ctx):
    frames, clock, base = make_tree(ctx, ["static", "discrete", "discrete"])
    rng = ctx.rng
    for _ in range(5):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        form, out = do_lookup(ctx, a, b)
        _, _, ts = verify_lookup(ctx, a, b, out)
        ev_classify(ctx, a, b, ts, clock, "only")


@prop.scenario(2)
def arrays(ctx):
    """Timestamped arrays across discrete frames are sampled at their own
    timestamps; before the first event the first transform applies."""
    frames, clock, base = make_tree(ctx, ["static", "moving", "discrete",
                                          "discrete"])
    rng = ctx.rng
    for _ in range(4):
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        n = int(rng.integers(2, 12))
        if rng.random() < 0.6:
            ats = np.sort(rng.choice(base, n, replace=False))
        else:
            ats = clock.make(-3.0, G.grid_steps(rng, n - 1, clock) * 2)
        ats = clock.store(ats)
        arr = G.vec(rng, n, 3.0)
        t, R, ts = O.lookup(a, b, ats)
        x = (arr if len(ts) == len(ats)
             else O.lerp(arr, O.tsf(ats), O.tsf(ts)))
        pts = rng.random() < 0.6
        f = rbm.transform_points if pts else rbm.transform_vectors
        want = O.apply_R(R, x) + (t if pts else 0)
        got, gts = ctx.call(f, arr, into=G.ref(ctx, b), outof=G.ref(ctx, a),
                            timestamps=ats, return_timestamps=True)
        ctx.close(gts, ts, "timestamps")
        ctx.close(got, want, "array-transform", 1e-7)
        ev_classify(ctx, a, b, ts, clock, "arr")


@prop.scenario(1)
def jumps(ctx):
    """No blending across an event: values only ever equal given samples."""
    rng = ctx.rng
    clock = G.Clock(rng)
    r = G.root(ctx, rbm)
    d = event_frame(ctx, r, clock, 0.0, 6.0)
    n = int(rng.integers(20, 60))
    g = clock.make(-2.5, np.full(n - 1, 11.0 / n))
    m = ctx.call(rbm.ReferenceFrame, "grid", parent=d.obj,
                 translation=np.zeros((n, 3)), timestamps=g)
    fm = O.Frame("grid", d, np.zeros((n, 3)),
                 np.tile([1.0, 0, 0, 0], (n, 1)), g, False, m)
    fm.reg, fm.inverse = False, False
    out = ctx.call(m.lookup_transform, r.obj)
    _, _, ts = verify_lookup(ctx, fm, r, out)
    ctx.check(len(ts) == n, "range", "discrete frame restricted the range")
    ev_classify(ctx, fm, r, ts, clock, "jump")


def ns_grid(rng, n, unit="ns"):
    """Arbitrary instants, distinguishable from floats of ns at best."""
    step = (10.0 ** rng.uniform(4, 9, n)).astype(np.int64)
    start = np.datetime64(str(rng.choice(
        ["2021-03-01T12:00:00", "1969-12-31T23:59:59", "2100-01-01"])), "ns")
    k = np.cumsum(step) + int(rng.integers(10**9))
    return start + k.astype("timedelta64[ns]")


@prop.scenario(1)
def fine(ctx):
    """Events and samples that are only some nanoseconds apart."""
    rng = ctx.rng
    base = ns_grid(rng, int(rng.integers(3, 10)))
    as_int = rng.random() < 0.25

    def around(k):
        off = rng.choice([-1, 1], k) * (
            10 ** rng.uniform(0, 2.7, k)).astype(np.int64)
        ts = rng.choice(base, k) + np.where(
            rng.random(k) < 0.2, 0, off).astype("timedelta64[ns]")
        return np.unique(ts)

    def stamps(ts):
        return ts.astype(np.int64) if as_int else ts

    r = G.root(ctx, rbm)
    frames, p = [], r
    for _ in range(int(rng.integers(1, 4))):
        ts = stamps(around(int(rng.integers(1, 7))))
        n = len(ts)
        t, q = G.vec(rng, n, 2.0), G.quat(rng, n)
        inv = bool(rng.random() < 0.3)
        obj = ctx.call(rbm.ReferenceFrame, G.fresh_name("d"), parent=p.obj,
                       translation=t, rotation=q, timestamps=ts,
                       discrete=True, inverse=inv)
        te, qe = G.invert(t, q) if inv else (t, q)
        f = O.Frame(obj.name, p, te, qe, ts, True, obj)
        f.reg, f.inverse = False, inv
        frames.append(f)
        p = f if rng.random() < 0.6 else r
    a = frames[-1]
    b = r if rng.random() < 0.6 else frames[0]
    if rng.random() < 0.5:
        a, b = b, a
    ctx.events["events:fine"] += 1
    form, out = do_lookup(ctx, a, b)
    _, _, ts = verify_lookup(ctx, a, b, out)
    if ts is not None:
        ctx.check(np.array_equal(O.tsi(out[2]), O.tsi(ts)), "timestamps",
                  "not exact", got=out[2], want=ts)
    ats = stamps(np.unique(np.concatenate([base, around(3)])))
    arr = G.vec(rng, len(ats), 3.0)
    f = rbm.transform_points
    t, R, ts = O.lookup(a, b, ats)
    got, gts = ctx.call(f, arr, into=b.obj, outof=a.obj, timestamps=ats,
                        return_timestamps=True)
    ctx.check(np.array_equal(O.tsi(gts), O.tsi(ats)), "timestamps",
              "not exact", got=gts, want=ats)
    ctx.close(got, O.apply_R(R, arr) + t, "array-transform", 1e-7)
    ctx.nontrivial("fine", as_int, len(frames), len(ats),
                   int(base[0].astype(np.int64) < 0))

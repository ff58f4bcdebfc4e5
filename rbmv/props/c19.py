"""C19: ROS messages and rosbags round-trip poses, timestamps and frames."""
import os
import pathlib
import shutil
import tempfile

import numpy as np
import rigid_body_motion as rbm

from .. import fakeros
from .. import gen as G
from .. import oracle as O
from ..core import Prop

HUB = fakeros.install()
import rigid_body_motion.ros as rros  # noqa: E402
from rigid_body_motion.ros import msg as rmsg  # noqa: E402

MSG = fakeros.MSG
prop = Prop(
    "C19",
    "ROS messages and rosbags",
    "pose/twist/vector/quaternion values in several containers through every "
    "make_*/unpack_* pair; bags with 1-4 interleaved topics of several types, "
    "1-30 messages, float and datetime stamps, header and bag times that "
    "differ, header-less messages; datasets exported to and cached in netCDF "
    "files in a scratch folder. rospy, rosbag and the message packages are "
    "recording stand-ins. Every field is compared with what the generator "
    "wrote. Signature = (scenario, type, count, stamps, container).",
    quick=4500, thorough=20000,
    assumptions=["fakeros.py behaves like the ROS interfaces it stands for "
                 "(message fields, genpy time truncation, bag ordering)"],
)
prop.require("monitor:layout", "monitor:unpack", "monitor:header",
             "monitor:read-values", "monitor:read-stamps", "monitor:dataset",
             "monitor:export", "monitor:cache", "series:far", "monitor:topics",
             "monitor:closed", "stamp:header", "stamp:bag",
             "stamp:unordered", "monitor:refused-nothing-written")


def conv(rng, v):
    return [v, tuple(v), list(map(float, v)), np.asarray(v)][rng.integers(4)]


def xyz(m):
    return [m.x, m.y, m.z]


def wxyz(m):
    return [m.w, m.x, m.y, m.z]


def stamp(rng):
    return float(np.round(rng.uniform(0, 2e9), 6)) if rng.random() < 0.7 else 0.0


@prop.scenario(3)
def messages(ctx):
    rng = ctx.rng
    HUB.reset()
    a, b = G.vec(rng), G.vec(rng)
    q = G.quat(rng)
    f, c, ts = G.fresh_name("f"), G.fresh_name("c"), stamp(rng)
    kw = {} if ts == 0.0 and rng.random() < 0.5 else {"time": ts}
    want_ts = fakeros.Time.from_sec(ts)

    def header(m, cls):
        ctx.check(type(m) is MSG[cls], "header", f"not a {cls}", got=m)
        ctx.check(m.header.frame_id == f, "header", "frame_id", got=m, f=f)
        ctx.check(m.header.stamp == want_ts, "header", "stamp", got=m, ts=ts)

    m = ctx.call(rmsg.make_transform_msg, conv(rng, a), conv(rng, q), f, c, **kw)
    header(m, "TransformStamped")
    ctx.check(m.child_frame_id == c, "header", "child", got=m, c=c)
    ctx.close(xyz(m.transform.translation), a, "layout", 1e-15)
    ctx.close(wxyz(m.transform.rotation), q, "layout", 1e-15)
    for st, mm in ((True, m), (False, m.transform)):
        kws = {"stamped": st} if st or rng.random() < 0.5 else {}
        t, r = ctx.call(rmsg.unpack_transform_msg, mm, **kws)
        ctx.close(t, a, "unpack", 1e-15)
        ctx.close(r, q, "unpack", 1e-15)
    m = ctx.call(rmsg.make_pose_msg, conv(rng, a), conv(rng, q), f, **kw)
    header(m, "PoseStamped")
    ctx.close(xyz(m.pose.position), a, "layout", 1e-15)
    ctx.close(wxyz(m.pose.orientation), q, "layout", 1e-15)
    for st, mm in ((True, m), (False, m.pose)):
        t, r = ctx.call(rmsg.unpack_pose_msg, mm, stamped=st)
        ctx.close(t, a, "unpack", 1e-15)
        ctx.close(r, q, "unpack", 1e-15)
    m = ctx.call(rmsg.make_twist_msg, conv(rng, a), conv(rng, b), f, **kw)
    header(m, "TwistStamped")
    ctx.close(xyz(m.twist.linear), a, "layout", 1e-15)
    ctx.close(xyz(m.twist.angular), b, "layout", 1e-15)
    for st, mm in ((True, m), (False, m.twist)):
        v, w = ctx.call(rmsg.unpack_twist_msg, mm, stamped=st)
        ctx.close(v, a, "unpack", 1e-15)
        ctx.close(w, b, "unpack", 1e-15)
    for cls, field, make, unpack, val in (
        ("Vector3Stamped", "vector", rmsg.make_vector_msg,
         rmsg.unpack_vector_msg, a),
        ("PointStamped", "point", rmsg.make_point_msg,
         rmsg.unpack_point_msg, b),
        ("QuaternionStamped", "quaternion", rmsg.make_quaternion_msg,
         rmsg.unpack_quaternion_msg, q),
    ):
        m = ctx.call(make, conv(rng, val), f, **kw)
        header(m, cls)
        inner = getattr(m, field)
        ctx.close(wxyz(inner) if cls[0] == "Q" else xyz(inner), val,
                  "layout", 1e-15)
        for st, mm in ((True, m), (False, inner)):
            ctx.close(ctx.call(unpack, mm, stamped=st), val, "unpack", 1e-15)
    # static frames
    p = rbm.ReferenceFrame(f)
    inv = bool(rng.random() < 0.4)
    rf = rbm.ReferenceFrame(c, parent=p, translation=a, rotation=q, inverse=inv)
    m = ctx.call(rmsg.static_rf_to_transform_msg, rf, **kw)
    header(m, "TransformStamped")
    ctx.check(m.child_frame_id == c, "header", "child", got=m, c=c)
    t, r = G.invert(a, q) if inv else (a, q)
    ctx.close(xyz(m.transform.translation), t, "layout", 1e-12)
    ctx.same_rotation(wxyz(m.transform.rotation), r, "layout", 1e-12)
    ctx.nontrivial(inv, bool(kw), ts == 0)


def series(ctx, n):
    rng = ctx.rng
    kind = rng.choice(["float", "ns", "us", "ms", "s"])
    steps = rng.uniform(0.01, 2.0, n - 1)
    if kind == "s":
        steps = np.ceil(steps)
    rel = np.concatenate([[0], np.cumsum(steps)])
    if kind == "float":
        ts = np.round(rng.uniform(1, 1.6e9) + rel, 5)
        sec = ts
    else:
        per = {"ns": 10**9, "us": 10**6, "ms": 10**3, "s": 1}[kind]
        t0 = np.datetime64("2019-06-01T00:00:00", kind)
        ts = t0 + np.round(rel * per).astype("int64").astype(
            f"timedelta64[{kind}]")
        sec = ts.astype("datetime64[ns]").astype("int64") / 1e9
    t, q = np.cumsum(G.vec(rng, n, 1.0), 0), G.walk_quat(rng, n)
    if rng.random() < 0.2:  # map coordinates, beyond any quantisation
        t = t + G.vec(rng, (), 10.0 ** rng.uniform(3, 9))
        ctx.events["series:far"] += 1
    if rng.random() < 0.2:  # lost by the tracker
        t[rng.random(n) < 0.3] = np.nan
        q[rng.random(n) < 0.3] = pick_lost(rng)
    return kind, ts, sec, t, q


def pick_lost(rng):
    return [np.nan, 0.0, [np.nan, 0, 0, 0]][rng.integers(3)]


def scratch(fn):
    def run(ctx):
        HUB.reset()
        d = tempfile.mkdtemp(prefix="rbmv-c19-")
        try:
            fn(ctx, pathlib.Path(d))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    run.__name__ = fn.__name__
    return run


def path(ctx, p):
    return str(p) if ctx.rng.random() < 0.5 else p


@prop.scenario(4)
@scratch
def roundtrip(ctx, d):
    """Writer -> bag -> reader, several topics."""
    import xarray as xr

    rng = ctx.rng
    bag = d / "a.bag"
    topics = {}
    with rros.RosbagWriter(path(ctx, bag)) as w:
        for i in range(int(rng.integers(1, 5))):
            n = int(rng.choice([1, 2, G.count(rng, 3, 30, 0.01, 3.7)]))
            kind, ts, sec, t, q = series(ctx, n)
            if rng.random() < 0.25:
                # recorded in any order, possibly more than once
                i = (rng.permutation(n) if rng.random() < 0.7
                     else rng.integers(0, n, n))
                ts, sec, t, q = ts[i], sec[i], t[i], q[i]
                ctx.events["stamp:unordered"] += 1
            topic = f"/{G.fresh_name('t')}" + ("/tf" if rng.random() < 0.4
                                               else "")
            f, c = G.fresh_name("f"), G.fresh_name("c")
            if kind == "float" and rng.random() < 0.5:
                ctx.call(w.write_transform_stamped, conv(rng, ts)
                         if n > 1 else ts, G.dress(rng, t), G.dress(rng, q),
                         topic, f, c)
                form = "arrays"
            else:
                names = [("time", "position", "orientation"),
                         ("tt", "p", "o")][rng.integers(2)]
                ds = xr.Dataset(
                    {names[1]: ((names[0], "cartesian_axis"), t),
                     names[2]: ((names[0], "quaternion_axis"), q)},
                    {names[0]: ts})
                kw = {} if names[0] == "time" else {
                    "timestamps": "tt", "translation": "p", "rotation": "o"}
                ctx.call(w.write_transform_stamped_dataset, ds, topic, f, c,
                         **kw)
                form = "dataset" + str(bool(kw))
            topics[topic] = (sec, t, q, f, c)
            ctx.nontrivial(form, kind, min(n, 4))
    ctx.check(HUB.closed == 1, "closed", "bag not closed after writing",
              closed=HUB.closed)
    # what is in the bag, message by message
    for topic, (sec, t, q, f, c) in topics.items():
        msgs = [m for _, m, _ in fakeros.Bag(bag).read_messages(topic)]
        ctx.check(len(msgs) == len(sec), "read-values", "message count",
                  got=len(msgs), want=len(sec))
        for m, s in zip(msgs, sec):
            ctx.check(m.header.frame_id == f and m.child_frame_id == c,
                      "header", "frames in bag", got=m)
    with rros.RosbagReader(path(ctx, bag)) as r:
        got = ctx.call(r.get_topics_and_types)
        ctx.check(got == {k: "geometry_msgs/TransformStamped" for k in topics},
                  "topics", "topics and types", got=got)
        for topic in rng.permutation(list(topics)):
            sec, t, q, *_ = topics[str(topic)]
            m = ctx.call(r.load_messages, str(topic))
            compare(ctx, m, sec, t, q)
            ds = ctx.call(r.load_dataset, str(topic))
            dataset(ctx, ds, sec, t, q)
    ctx.check(HUB.closed == 2, "closed", "bag not closed after reading")
    ctx.describe(topics=list(topics))


def compare(ctx, m, sec, t, q, v=None, w=None):
    keys = {"timestamps", "position", "orientation"}
    if v is not None:
        keys |= {"linear_velocity", "angular_velocity"}
    ctx.check(set(m) == keys, "read-values", "keys", got=list(m))
    got = np.asarray(m["timestamps"])
    ctx.check(got.shape == (len(sec),), "read-stamps", "shape", got=got)
    ctx.check(bool(np.all(np.abs(got - sec) < 1e-6)), "read-stamps",
              "stamps differ", got=got, want=sec)
    ctx.close(m["position"], t, "read-values", 1e-14)
    ctx.close(m["orientation"], q, "read-values", 1e-14)
    if v is not None:
        ctx.close(m["linear_velocity"], v, "read-values", 1e-14)
        ctx.close(m["angular_velocity"], w, "read-values", 1e-14)


def dataset(ctx, ds, sec, t, q, v=None, w=None, tol=1e-14, mech="dataset"):
    want = {"position": (t, "cartesian_axis"),
            "orientation": (q, "quaternion_axis")}
    if v is not None:
        want["linear_velocity"] = (v, "cartesian_axis")
        want["angular_velocity"] = (w, "cartesian_axis")
    ctx.check(set(ds.data_vars) == set(want), mech, "variables",
              got=list(ds.data_vars))
    for k, (a, dim) in want.items():
        ctx.check(ds[k].dims == ("time", dim), mech, "dims", got=ds[k].dims)
        if tol > 1e-10:
            err = np.abs(ds[k].values - a)
            ctx.check(err.shape == a.shape and bool(np.all(
                (err <= tol) | np.isnan(ds[k].values) & np.isnan(a))), mech,
                      f"{k} differs", got=ds[k].values, want=a)
        else:
            ctx.close(ds[k].values, a, mech, tol, k)
    ctx.check([str(x) for x in ds["cartesian_axis"].values] == list("xyz")
              and [str(x) for x in ds["quaternion_axis"].values]
              == list("wxyz"), mech, "axis labels", got=ds)
    ts = ds["time"].values
    ctx.check(ts.dtype.kind == "M", mech, "time dtype", got=ts.dtype)
    ns = ts.astype("datetime64[ns]").astype("int64") / 1e9
    ctx.check(ns.shape == sec.shape and bool(np.all(np.abs(ns - sec) < 1e-6)),
              mech, "time differs", got=ts, want=sec)


def fill(ctx, bag, nmin=1):
    """A bag with hand-made messages, bag order != generation order."""
    rng = ctx.rng
    b = fakeros.Bag(bag, "w")
    topics, rows = {}, []
    for i in range(int(rng.integers(1, 4))):
        topic = f"/n{i}/{G.fresh_name('t')}"
        typ = rng.choice(["Odometry", "TransformStamped", "TwistStamped"],
                         p=[0.45, 0.4, 0.15])
        n = G.count(rng, nmin, 20, 0.01, 3.7)
        _, _, sec, t, q = series(ctx, n)
        v, w = G.vec(rng, n), G.vec(rng, n)
        off = float(rng.choice([0.0, 3.5, 1000.25]))
        head = bool(rng.random() < 0.7)
        hsec = sec
        if head and rng.random() < 0.35:
            # header stamps out of order or repeated
            hsec = rng.permutation(sec)
            if rng.random() < 0.4:
                hsec = np.sort(hsec[rng.integers(0, n, n)])
            ctx.events["stamp:unordered"] += 1
        for k in range(n):
            m = MSG[typ]()
            m.header.stamp = fakeros.Time.from_sec(hsec[k])
            m.header.seq = k
            if not head:
                m = headless(m)
            if typ == "Odometry":
                o, x, tw = m.pose.pose.orientation, m.pose.pose.position, m.twist.twist
                tw.linear = MSG["Vector3"](*v[k])
                tw.angular = MSG["Vector3"](*w[k])
            elif typ == "TransformStamped":
                o, x = m.transform.rotation, m.transform.translation
            if typ != "TwistStamped":
                o.w, o.x, o.y, o.z = map(float, q[k])
                x.x, x.y, x.z = map(float, t[k])
            rows.append((sec[k] + off, topic, m))
        bagt = fakeros.Time.from_sec
        st = hsec if head else np.array([bagt(s + off).to_sec() for s in sec])
        ctx.events["stamp:" + ("header" if head else "bag")] += 1
        topics[topic] = (str(typ), st, t, q,
                         *((v, w) if typ == "Odometry" else (None, None)))
        ctx.nontrivial(str(typ), head, off, min(n, 3))
    for i in rng.permutation(len(rows)):
        tt, topic, m = rows[i]
        b.write(topic, m, fakeros.Time.from_sec(tt))
    b.close()
    HUB.closed = 0
    return topics


class Headless:
    """A message whose type has no header (bag time applies)."""


def headless(m):
    cls = type(m)
    sub = _HEADLESS.get(cls)
    n = sub.__new__(sub)
    for s in cls.__slots__:
        setattr(n, s, getattr(m, s))
    n.header = MSG["Header"]()
    return n


def _mk():
    out = {}
    for name in ("Odometry", "TransformStamped", "TwistStamped"):
        cls = MSG[name]
        sub = type("Headless" + name, (cls,), {
            "_has_header": False, "__module__": __name__,
            "__slots__": cls.__slots__})
        globals()["Headless" + name] = sub
        out[cls] = sub
    return out


_HEADLESS = _mk()


@prop.scenario(3)
@scratch
def recorded(ctx, d):
    """Bags recorded elsewhere."""
    bag = d / "rec.bag"
    topics = fill(ctx, bag)
    with rros.RosbagReader(path(ctx, bag)) as r:
        got = ctx.call(r.get_topics_and_types)
        ctx.check(len(got) == len(topics) and all(
            got[k].endswith("/" + v[0]) for k, v in topics.items()),
            "topics", "topics and types", got=got)
        for topic, (typ, sec, t, q, v, w) in topics.items():
            if typ == "TwistStamped":
                ctx.rejects(ValueError, r.load_messages, topic)
                ctx.rejects(ValueError, r.load_dataset, topic)
                continue
            compare(ctx, ctx.call(r.load_messages, topic), sec, t, q, v, w)
            dataset(ctx, ctx.call(r.load_dataset, topic), sec, t, q, v, w)
    ctx.check(HUB.closed == 1, "closed", "bag not closed")
    # readers and writers close their bags when the body fails
    for cls in (rros.RosbagReader, rros.RosbagWriter):
        HUB.closed = 0
        try:
            with cls(path(ctx, bag)):
                raise KeyError("x")
        except KeyError:
            pass
        ctx.check(HUB.closed == 1, "closed", f"{cls.__name__} left bag open")
    r = rros.RosbagReader(bag)
    ctx.rejects(RuntimeError, r.load_messages, "/x")
    ctx.rejects(RuntimeError, r.get_topics_and_types)


@prop.scenario(2)
@scratch
def files(ctx, d):
    """netCDF export and cache."""
    import xarray as xr

    rng = ctx.rng
    bag = d / "sub dir" / "rec.file.bag"
    bag.parent.mkdir()
    topics = fill(ctx, bag)
    good = [k for k, v in topics.items() if v[0] != "TwistStamped"]
    with rros.RosbagReader(path(ctx, bag)) as r:
        for i, topic in enumerate(good):
            _, sec, t, q, v, w = topics[topic]
            if i == 0 and rng.random() < 0.5:
                ctx.call(r.export, topic)
                out = bag.parent / "rec.file.nc"
            else:
                out = d / "new" / f"x{i}.nc"
                ctx.call(r.export, topic, path(ctx, out))
            ctx.check(out.exists(), "export", "file not written", out=out)
            with xr.open_dataset(out) as ds:
                dataset(ctx, ds.load(), sec, t, q, v, w, 6e-5, "export")
        before = set(d.rglob("*"))
        for rep in range(2):
            for topic in good:
                _, sec, t, q, v, w = topics[topic]
                ds = ctx.call(r.load_dataset, topic, cache=True)
                dataset(ctx, ds.load(), sec, t, q, v, w, 6e-5, "cache")
                ds.close()
        new = [p for p in set(d.rglob("*")) - before]
        ctx.check(all(p == bag.parent / "cache"
                      or p.parent == bag.parent / "cache" for p in new),
                  "cache", "cache files elsewhere", got=new)
    ctx.describe(topics=topics.keys())


@prop.scenario(2)
@scratch
def frames(ctx, d):
    """A moving frame survives library -> bag -> library."""
    rng = ctx.rng
    clock = G.Clock(rng, rng.choice(["ns", "us", "ms"]))
    models, _, _ = G.tree(ctx, rbm, kinds=("static", "moving"), clock=clock,
                          n=int(rng.integers(2, 5)), shape="chain")
    a, b = models[-1], models[0]
    t, R, ts = O.lookup(a, b)
    if ts is None or len(ts) < 2:
        ctx.events["skip:static"] += 1
        return
    ds = ctx.call(rbm.lookup_transform, G.ref(ctx, a), G.ref(ctx, b),
                  as_dataset=True)
    pos, ori = (k for k in ds.data_vars)
    bag = d / "f.bag"
    with rros.RosbagWriter(bag) as w:
        ctx.call(w.write_transform_stamped_dataset, ds, "/tf", "p", "c",
                 translation=pos, rotation=ori)
    with rros.RosbagReader(bag) as r:
        out = ctx.call(r.load_dataset, "/tf")
    rf = ctx.call(rbm.ReferenceFrame.from_dataset, out, "position",
                  "orientation", "time", rbm.ReferenceFrame("p"), "c")
    t2, q2, ts2 = ctx.call(rf.lookup_transform, rf.parent)
    ctx.close(t2, t, "read-values", 1e-8)
    ctx.close(O.q2R(q2), R, "read-values", 1e-6)
    dt = np.abs(O.tsf(ts2) - O.tsf(ts))
    ctx.check(dt.shape == ts.shape and bool(np.all(dt <= 1000)),
              "read-stamps", "stamps differ", got=ts2, want=ts)
    ctx.nontrivial(clock.kind, len(models))


@prop.scenario(1)
@scratch
def cache_identity(ctx, d):
    """Cached datasets belong to the requested bag and topic."""
    rng = ctx.rng
    case = ["other-bag", "topic-collision", "fine"][rng.integers(3)]
    n = int(rng.integers(1, 6))
    A, B = series(ctx, n), series(ctx, n)
    base = G.fresh_name("t")
    ta, tb = [(f"/{base}/x", f"/{base}/y"), (f"/l{base}/x", f"/r{base}/x"),
              (f"/{base}", f"/{base}/x"), (f"/x/{base}", f"/x/{base}/x"),
              (f"/{base}/x", f"/x/{base}"), (f"/{base}/x", f"/{base}/X"),
              (f"/{base}/pose_left", f"/{base}/pose_right"),
              (f"/a/b/{base}", f"/a/c/{base}")][rng.integers(8)]
    if rng.random() < 0.5:
        ta, tb = tb, ta
    if case == "topic-collision":
        ta, tb = f"/{base}/x", f"/{base}_x"
    pa, pb = d / "a.bag", d / "a.bag"
    if case == "other-bag":
        pb, tb = d / "b.bag", ta
    elif rng.random() < 0.5:
        (d / "two").mkdir()
        pb = d / "two" / "a.bag"
        if rng.random() < 0.5:
            tb = ta
    per = {}
    for p, topic, s in ((pa, ta, A), (pb, tb, B)):
        per.setdefault(p, []).append((topic, s))
    for p, items in per.items():
        with rros.RosbagWriter(p) as w:
            for topic, (_, _, sec, t, q) in items:
                ctx.call(w.write_transform_stamped, sec, t, q, topic, "f", "c")
    jobs = [(p, topic, s) for p, items in per.items() for topic, s in items]
    for i in rng.integers(0, len(jobs), 4):
        p, topic, (_, _, sec, t, q) = jobs[i]
        if np.abs(t).max() > 2e5:
            return
        with rros.RosbagReader(p) as r:
            ds = ctx.call(r.load_dataset, topic, cache=True)
            got = ds.load()
            ds.close()
        if case == "fine" or pa.parent != pb.parent:
            dataset(ctx, got, sec, t, q, tol=6e-5, mech="cache")
        else:
            dataset(ctx, got, sec, t, q, tol=6e-5, mech="cache-" + case)
    ctx.nontrivial(case, n)


@prop.scenario(1)
@scratch
def refusals(ctx, d):
    """Malformed series are refused before anything is written."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    _, _, sec, t, q = series(ctx, n)
    sec = np.asarray(sec)
    bad = {"ts-ndim": (sec[:, None], t, q), "ts-scalar": (sec[0], t, q),
           "ts-short": (sec[:-1], t, q), "t-short": (sec, t[:-1], q),
           "q-short": (sec, t, q[1:]), "t-width": (sec, t[:, :2], q),
           "q-width": (sec, t, q[:, 1:]), "t-transposed": (sec, t.T, q),
           "q-transposed": (sec, t, q.T), "t-single": (sec, t[0], q),
           "q-single": (sec, t, q[0]), "swapped": (sec, q, t),
           "t-long": (sec, np.vstack([t, t[:1]]), q),
           "q-ndim": (sec, t, q[:, None])}
    k = str(rng.choice(list(bad)))
    x = bad[k]
    if (k == "t-transposed" and n == 3) or (k == "q-transposed" and n == 4):
        return
    with rros.RosbagWriter(d / "r.bag") as w:
        first = rng.random() < 0.5
        if first:
            ctx.call(w.write_transform_stamped, sec, t, q, "/a", "f", "c")
        ctx.rejects(ValueError, w.write_transform_stamped, *x, "/a", "f", "c",
                    _what=k)
    with rros.RosbagReader(d / "r.bag") as r:
        info = r._bag
        m = sum(1 for _ in info.read_messages())
    ctx.check(m == (n if first else 0), "refused-nothing-written",
              f"{m} messages in the bag", kind=k)
    ctx.nontrivial("refusal", k, first)

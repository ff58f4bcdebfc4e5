"""C20: ROS publishers broadcast the frame's transform at the right instants."""
import threading

import numpy as np
import rigid_body_motion as rbm

from .. import fakeros
from .. import gen as G
from .. import oracle as O
from ..core import Prop, Violation

HUB = fakeros.install()
import rigid_body_motion.ros as rros  # noqa: E402
from rigid_body_motion.ros import visualization as rvis  # noqa: E402

MSG = fakeros.MSG
G.LONG_TOP = 3.2  # every transform becomes a message

prop = Prop(
    "C20",
    "ROS publishers",
    "random trees (static, moving; inverse; depth 1-6) fed to a tf2 buffer "
    "model and queried at shared sample times, at in-between times and "
    "at the latest time; broadcasters over single- and multi-frame paths with "
    "requested/default/incoming indices, incoming stamps before, between, at "
    "and after the samples; publisher threads stepped through every "
    "scheduling point (is_shutdown, publish, sleep) by a controller that "
    "calls stop(), shutdown or spin() again at a random point; marker "
    "publishers with 1-400 points and max_points 1-500. The ROS client "
    "libraries are recording stand-ins. Signature = (scenario, tree, index, "
    "schedule).",
    quick=6600, thorough=25000,
    assumptions=["fakeros.py behaves like the ROS interfaces it stands for",
                 "preemption points of publisher loops are the ROS calls"],
)
prop.require("monitor:buffer", "monitor:transformer", "monitor:broadcast",
             "monitor:nearest", "monitor:cycle", "monitor:stop",
             "monitor:marker", "monitor:changed-only", "monitor:twist",
             "monitor:pose", "monitor:playback", "monitor:node",
             "schedule:stop-at-publish", "schedule:stop-at-sleep",
             "schedule:stop-before-start", "monitor:late-viewer",
             "monitor:widget", "monitor:path")


def xyz(m):
    return [m.x, m.y, m.z]


def wxyz(m):
    return [m.w, m.x, m.y, m.z]


def sec(ts):
    return np.asarray(ts).astype("datetime64[ns]").astype("int64") / 1e9


def dclock(ctx):
    return G.Clock(ctx.rng, ctx.rng.choice(["ns", "us", "ms"]))


def registered_tree(ctx, kinds, n=None, clock=None, max_step=0.8, **kw):
    """All frames get names known to ROS."""
    clock = clock or dclock(ctx)
    return G.tree(ctx, rbm, kinds=kinds, clock=clock, n=n, max_step=max_step,
                  **kw)


def messages(kind, channel=None):
    return [m for k, c, m, _ in HUB.log
            if k == kind and (channel is None or c == channel)]


def late_viewer(ctx, topic, last):
    """A subscriber that connects now is shown the last message."""
    import rospy

    seen = []
    rospy.Subscriber(topic, type(last), seen.append)
    ctx.check(len(seen) == 1 and seen[0] == last, "late-viewer",
              "latest message for new subscribers", got=seen, topic=topic)


# ---------------------------------------------------------------- Transformer
@prop.scenario(3)
def transformer(ctx):
    rng = ctx.rng
    HUB.reset()
    HUB.buffers = []
    single = bool(rng.random() < 0.6)  # at most one moving frame per path
    clock = dclock(ctx)
    models = [G.root(ctx, rbm)]
    shared = None
    n = int(rng.integers(1, 6))
    for i in range(n):
        par = models[rng.integers(len(models))]
        kind = rng.choice(["static", "moving"])
        m = G.add_frame(ctx, rbm, par, clock, kind, scale=1.0, max_step=0.5)
        models.append(m)
    tr = ctx.call(rros.Transformer.from_reference_frame,
                  models[rng.integers(len(models))].obj)
    # every non-root frame reached the buffer
    for m in models[1:]:
        stat, mov = messages("static", m.name), messages("moving", m.name)
        ms = stat if m.kind == "static" else mov
        ctx.check(not (mov if m.kind == "static" else stat), "buffer",
                  "wrong kind of transform", frame=m.name)
        k = 1 if m.kind == "static" else len(m.ts)
        ctx.check(len(ms) == k, "buffer", "number of transforms",
                  got=len(ms), want=k)
        ctx.check(all(x.header.frame_id == m.parent.name for x in ms),
                  "buffer", "parent", got=ms[0])
        ctx.close([xyz(x.transform.translation) for x in ms],
                  np.reshape(m.t, (k, 3)), "buffer", 1e-9)
        ctx.same_rotation(
            np.array([wxyz(x.transform.rotation) for x in ms]),
            np.reshape(m.q, (k, 4)), "buffer", 1e-9)
        if m.kind == "moving":
            st = np.array([x.header.stamp.to_sec() for x in ms])
            ctx.check(bool(np.all(np.abs(st - sec(m.ts)) < 1e-6)), "buffer",
                      "stamps", got=st, want=m.ts)
    ctx.check(len(messages("static")) + len(messages("moving")) == sum(
        1 if m.kind == "static" else len(m.ts) for m in models[1:]),
        "buffer", "extra transforms", got=HUB.log)
    buf = HUB.buffers[-1]
    for m in models[1:]:
        if m.kind == "moving":
            ctx.check(len(buf.moving[m.name]) == len(m.ts), "buffer",
                      "samples dropped from the buffer",
                      got=len(buf.moving[m.name]), want=len(m.ts))
    # queries
    for _ in range(6):
        a = models[rng.integers(len(models))]
        b = models[rng.integers(len(models))]
        up, down = O.path(a, b)
        mov = [f for f in up + down if f.kind == "moving"]
        if len(mov) > 1:
            continue  # tf2 interpolates by slerp: only sample times compare
        t, R, ts = O.lookup(a, b)
        if mov:
            i = int(rng.choice([0, len(ts) - 1, rng.integers(len(ts))]))
            latest = rng.random() < 0.3
            i = len(ts) - 1 if latest else i
            t, R = t[i], R[i]
            # stay inside the buffered range despite float stamps
            time = float(sec(ts[i]))
            kw = {} if latest else {"time": time}
        else:
            kw = {} if rng.random() < 0.7 else {"time": 5.0}
        args = (b.name, a.name)
        ctx.check(ctx.call(tr.can_transform, *args, **kw) is True,
                  "transformer", "can_transform", args=args, kw=kw)
        gt, gq = ctx.call(tr.lookup_transform, *args, **kw)
        tol = 2e-5
        ctx.close(gt, t, "transformer", tol, "lookup translation")
        ctx.close(O.q2R(np.array(gq)), R, "transformer", tol, "lookup rotation")
        v, q = G.vec(rng, (), 1.0), G.quat(rng)
        qt = O.q2R(q)
        form = [list, tuple, np.asarray][rng.integers(3)]
        ctx.close(ctx.call(tr.transform_vector, form(v), *args, **kw), R @ v,
                  "transformer", tol, "vector")
        ctx.close(ctx.call(tr.transform_point, form(v), *args, **kw),
                  R @ v + t, "transformer", tol, "point")
        ctx.close(O.q2R(np.array(ctx.call(tr.transform_quaternion, form(q),
                                          *args, **kw))), R @ qt,
                  "transformer", tol, "quaternion")
        p, o = ctx.call(tr.transform_pose, form(v), form(q), *args, **kw)
        ctx.close(p, R @ v + t, "transformer", tol, "pose position")
        ctx.close(O.q2R(np.array(o)), R @ qt, "transformer", tol,
                  "pose orientation")
        # the library's own lookup at the same instant
        lt, lq, lts = ctx.call(a.obj.lookup_transform, b.obj)
        j = () if not mov else i
        ctx.close(gt, lt[j], "transformer", tol, "library translation")
        ctx.close(O.q2R(np.array(gq)), O.q2R(lq[j]), "transformer", tol,
                  "library rotation")
        if mov:
            ok = ctx.call(tr.can_transform, *args,
                          time=float(sec(mov[0].ts[-1])) + 10.0)
            ctx.check(ok is False, "transformer", "can_transform beyond range")
            ok = ctx.call(tr.can_transform, *args,
                          time=max(float(sec(mov[0].ts[0])) - 10.0, 1.0))
            ctx.check(ok is False, "transformer", "can_transform before range")
        ctx.nontrivial(len(up), len(down), bool(mov), bool(kw))
    ctx.describe(frames=[(m.name, m.kind) for m in models])


# ---------------------------------------------------------------- broadcaster
def moving_pair(ctx, min_ts=1):
    for _ in range(20):
        models, clock, _ = registered_tree(
            ctx, ("static", "moving", "moving"),
            n=int(ctx.rng.integers(1, 5)))
        a = models[ctx.rng.integers(1, len(models))]
        b = a.parent if ctx.rng.random() < 0.4 else models[
            ctx.rng.integers(len(models))]
        if a is b:
            continue
        t, R, ts = O.lookup(a, b)
        if ts is not None and len(ts) >= min_ts:
            return models, a, b, t, R, ts
    return None


def check_msg(ctx, m, a, b, t, R, ts, mech, pose=None):
    ctx.check(type(m) is MSG["TransformStamped"], mech, "type", got=m)
    ctx.check(m.header.frame_id == b.name and m.child_frame_id == a.name,
              mech, "frames", got=m, want=(b.name, a.name))
    if ts is not None:
        ctx.check(abs(m.header.stamp.to_sec() - float(sec(ts))) < 1e-6, mech,
                  "stamp", got=m.header.stamp, want=ts)
    ctx.close(xyz(m.transform.translation), t, mech, 1e-6)
    ctx.close(O.q2R(np.array(wxyz(m.transform.rotation))), R, mech, 1e-6)
    if pose is not None:
        ctx.check(type(pose) is MSG["PoseStamped"], "pose", "type", got=pose)
        ctx.check(pose.header.frame_id == b.name, "pose", "frame", got=pose)
        if ts is not None:
            ctx.check(abs(pose.header.stamp.to_sec() - float(sec(ts))) < 1e-6,
                      "pose", "stamp", got=pose)
        ctx.close(xyz(pose.pose.position), t, "pose", 1e-6)
        ctx.close(O.q2R(np.array(wxyz(pose.pose.orientation))), R, "pose",
                  1e-6)


@prop.scenario(3)
def broadcast(ctx):
    rng = ctx.rng
    HUB.reset()
    got = moving_pair(ctx, 4)
    if got is None:
        return
    models, a, b, t, R, ts = got
    pose, twist = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    kw = {}
    if pose:
        kw["publish_pose"] = True
    if twist:
        kw["publish_twist"] = True
    if b is not a.parent or rng.random() < 0.5:
        kw["base"] = G.ref(ctx, b)
    br = ctx.call(rros.ReferenceFrameTransformBroadcaster, G.ref(ctx, a), **kw)
    if twist:
        lin, ang, tts = ctx.call(
            rbm.lookup_twist, a.obj, reference=b.obj, represent_in=a.obj,
            return_timestamps=True)
    for _ in range(6):
        HUB.log.clear()
        i = int(rng.integers(len(ts)))
        mode = rng.integers(4)
        if mode == 0:  # default index
            br.idx = i
            ctx.call(br.publish)
        elif mode == 1:
            i = 0
            br.idx = int(rng.integers(len(ts)))
            ctx.call(br.publish, 0)
        elif mode == 2:
            i = -int(rng.integers(1, len(ts) + 1))
            ctx.call(br.publish, idx=i)
        else:
            br.idx = int(rng.integers(len(ts)))
            ctx.call(br.publish, i)
        ms = messages("tf", a.name)
        ctx.check(len(ms) == 1, "broadcast", "one transform", got=HUB.log)
        ps = messages("publish", f"/{a.name}/pose")
        ctx.check(len(ps) == int(pose), "pose", "pose count", got=HUB.log)
        check_msg(ctx, ms[0], a, b, t[i], R[i], ts[i], "broadcast",
                  ps[0] if pose else None)
        tw = messages("publish", f"/{a.name}/twist")
        ctx.check(len(tw) == int(twist), "twist", "twist count", got=HUB.log)
        if twist:
            j = np.argmin(np.abs(O.tsf(tts) - O.tsf(ts[i])))
            ctx.check(tw[0].header.frame_id == a.name, "twist", "frame",
                      got=tw[0])
            ctx.check(abs(tw[0].header.stamp.to_sec() - float(sec(ts[i])))
                      < 1e-6, "twist", "stamp", got=tw[0].header.stamp,
                      want=ts[i])
            ctx.close(xyz(tw[0].twist.linear), lin[j], "twist", 1e-6)
            ctx.close(xyz(tw[0].twist.angular), ang[j], "twist", 1e-6)
        ctx.check(len(HUB.log) == 1 + pose + twist, "broadcast",
                  "extra messages", got=HUB.log)
        ctx.nontrivial(int(mode), pose, twist, "base" in kw)
    for m in ps + tw:
        late_viewer(ctx, f"/{a.name}/" + ("pose" if m in ps else "twist"), m)
    ctx.describe(frame=a.name, base=b.name, n=len(ts))


@prop.scenario(2)
def static_broadcast(ctx):
    rng = ctx.rng
    HUB.reset()
    models, _, _ = registered_tree(ctx, ("static",))
    a = models[rng.integers(1, len(models))]
    b = a.parent if rng.random() < 0.5 else models[0]
    pose = bool(rng.random() < 0.5)
    kw = {"publish_pose": True} if pose else {}
    if b is not a.parent or rng.random() < 0.5:
        kw["base"] = G.ref(ctx, b)
    br = ctx.call(rros.ReferenceFrameTransformBroadcaster, G.ref(ctx, a), **kw)
    t, R, ts = O.lookup(a, b)
    before = set(threading.enumerate())
    m = rng.integers(3)
    if m == 0:
        ctx.call(br.publish)
    elif m == 1:
        ctx.call(br.publish, 3)
    else:
        ctx.call(br.spin, block=bool(rng.random() < 0.5))
    ms = messages("tf_static", a.name)
    ctx.check(len(ms) == 1, "broadcast", "one static transform", got=HUB.log)
    ps = messages("publish", f"/{a.name}/pose")
    ctx.check(len(ps) == int(pose), "pose", "pose count", got=HUB.log)
    check_msg(ctx, ms[0], a, b, t, R, None, "broadcast",
              ps[0] if pose else None)
    ctx.check(set(threading.enumerate()) <= before, "broadcast",
              "thread left for a static frame")
    ctx.nontrivial(int(m), pose)


@prop.scenario(3)
def incoming(ctx):
    """Publish the sample nearest to messages about the subscribed frame."""
    rng = ctx.rng
    HUB.reset()
    static = rng.random() < 0.15
    if static:
        models, _, _ = registered_tree(ctx, ("static",))
        a = models[rng.integers(1, len(models))]
        b = a.parent
        t, R, ts = O.lookup(a, b)
    else:
        got = moving_pair(ctx, 1)
        if got is None:
            return
        models, a, b, t, R, ts = got
    sub = True if rng.random() < 0.6 else "other_frame"
    br = ctx.call(rros.ReferenceFrameTransformBroadcaster, a.obj, b.obj,
                  subscribe=sub)
    ctx.check(len(HUB.subscribers) == 1 and HUB.subscribers[0].name == "/tf",
              "nearest", "subscriber", got=HUB.subscribers)
    cb = HUB.subscribers[0].callback
    want_frame = b.name if sub is True else sub
    for _ in range(5):
        HUB.log.clear()
        msg = MSG["tfMessage"]()
        want = []
        for _ in range(int(rng.integers(1, 4))):
            m = MSG["TransformStamped"]()
            m.header.frame_id = "x"
            hit = rng.random() < 0.7
            m.child_frame_id = want_frame if hit else str(rng.choice(
                ["nobody", a.name, "x" + want_frame]))
            s = None
            if ts is None:
                m.header.stamp = fakeros.Time.from_sec(rng.uniform(0, 1e9))
            else:
                st = sec(ts)
                mode = rng.integers(4)
                if mode == 0:
                    s = st[rng.integers(len(st))] + 1e-5
                elif mode == 1:
                    s = st[0] - rng.uniform(0.1, 1e5)
                elif mode == 2:
                    s = st[-1] + rng.uniform(0.1, 1e5)
                else:
                    s = rng.uniform(st[0], st[-1])
                m.header.stamp = fakeros.Time.from_sec(s)
            msg.transforms.append(m)
            if hit:
                want.append(s)
        ctx.call(cb, msg, _name="handle_incoming_msg")
        ms = messages("tf" if ts is not None else "tf_static", a.name)
        ctx.check(len(ms) == len(want) == len(HUB.log), "nearest",
                  "one transform per message about the frame", got=HUB.log,
                  want=want)
        for m, s in zip(ms, want):
            if ts is None:
                check_msg(ctx, m, a, b, t, R, None, "nearest")
                continue
            d = np.abs(sec(ts) - s)
            near = np.sort(d)[:2]
            if len(near) == 2 and near[1] - near[0] < 1e-5:
                ctx.events["skip:tie"] += 1
                continue
            i = int(np.argmin(d))
            check_msg(ctx, m, a, b, t[i], R[i], ts[i], "nearest")
        ctx.nontrivial(static, sub is True, len(want))


# ------------------------------------------------------------ schedules
class Stepper:
    """Lets the publisher thread run from one ROS call to the next."""

    def __init__(self, timeout=20):
        self.timeout = timeout
        self.go = threading.Semaphore(0)
        self.at = threading.Semaphore(0)
        self.points = []
        self.free = False
        self.main = threading.get_ident()

    def hook(self, kind, payload):
        if threading.get_ident() == self.main or self.free:
            return
        self.points.append(kind)
        self.at.release()
        self.go.acquire(timeout=60)

    def wait_point(self):
        return self.at.acquire(timeout=self.timeout)

    def step(self):
        self.go.release()


def new_threads(before):
    return [t for t in threading.enumerate() if t not in before]


@prop.scenario(4)
def threaded(ctx):
    """spin() in a thread, stopped at every kind of scheduling point."""
    rng = ctx.rng
    HUB.reset()
    marker = bool(rng.random() < 0.3)
    got = moving_pair(ctx, 1)
    if got is None:
        return
    models, a, b, t, R, ts = got
    if marker:
        pub = ctx.call(rros.ReferenceFrameMarkerPublisher, a.obj, b.obj)
    else:
        pub = ctx.call(rros.ReferenceFrameTransformBroadcaster, a.obj, b.obj)
    kind = "publish" if marker else "tf"
    sent = 0
    for rnd in range(int(rng.integers(1, 4))):
        before = threading.enumerate()
        st = Stepper()
        HUB.hook = st.hook
        HUB.shutdown = False
        HUB.log.clear()
        HUB.sleeps.clear()
        steps = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 25))]))
        how = rng.choice(["stop", "stop", "shutdown"])
        try:
            ctx.call(pub.spin)
            th = new_threads(before)
            for _ in range(steps):
                if not st.wait_point():
                    raise Violation("cycle", "publisher thread makes no "
                                    "progress", {"points": str(st.points)})
                st.step()
            if steps:
                # the thread sits at (or is on its way to) its next call
                st.wait_point()
                where = st.points[-1]
                st.go.release()
            else:
                where = "start"
            if how == "stop":
                ctx.events["schedule:stop-" + {
                    "start": "before-start", "sleep": "at-sleep",
                    "tf": "at-publish", "publish": "at-publish",
                }.get(where, "at-check")] += 1
                if steps:
                    # take the token back if the thread has not used it yet:
                    # either order is a legal schedule
                    pass
                ctx.call(pub.stop)
            else:
                HUB.shutdown = True
            n0 = len(HUB.log)
            st.free = True
            for _ in range(100):
                st.go.release()
            for x in th:
                x.join(20)
            ctx.check(not any(x.is_alive() for x in th), "stop",
                      f"thread still runs after {how}", where=where,
                      points=st.points[-10:])
            n1 = len(HUB.log)
            ctx.check(n1 - n0 <= 1, "stop",
                      f"{n1 - n0} messages after {how}", where=where)
            ctx.check(pub.stopped is True, "stop", "stopped flag")
        finally:
            st.free = True
            HUB.shutdown = True
            for _ in range(200):
                st.go.release()
            for x in new_threads(before):
                x.join(20)
            HUB.hook = None
        ms = messages(kind)
        ctx.check(len(ms) == len(HUB.log), "cycle", "foreign messages")
        if marker:
            if rnd == 0:
                ctx.check(len(ms) <= 1, "changed-only",
                          "unchanged marker published again", got=len(ms))
                sent += len(ms)
            else:
                ctx.check(sent + len(ms) <= 1, "changed-only",
                          "unchanged marker published again")
                sent += len(ms)
        else:
            for k, m in enumerate(ms):
                i = (sent + k) % len(ts)
                check_msg(ctx, m, a, b, t[i], R[i], ts[i], "cycle")
            # the pause before sample i is its distance to sample i - 1
            ss = sec(ts)
            for k, dt in enumerate(HUB.sleeps):
                i = (sent + k + 1) % len(ts)
                want = ss[i] - ss[i - 1] if i else 0.0
                ctx.check(abs(dt - want) < 1e-6, "cycle", "pause",
                          got=dt, want=want)
            ctx.check(len(HUB.sleeps) in (len(ms), len(ms) - 1), "cycle",
                      "one pause per message", got=HUB.sleeps, n=len(ms))
            sent += len(ms)
        ctx.nontrivial(marker, where, str(how), min(steps, 8), rnd,
                       len(ts) < 4)
    ctx.describe(frame=a.name, n=len(ts))


@prop.scenario(2)
def blocking(ctx):
    """spin(block=True), stopped from inside a ROS call."""
    rng = ctx.rng
    HUB.reset()
    got = moving_pair(ctx, 1)
    if got is None:
        return
    models, a, b, t, R, ts = got
    sub = bool(rng.random() < 0.2)
    marker = bool(rng.random() < 0.3)
    if marker:
        iv = float(rng.choice([0.0, 0.5, 2.0]))
        pub = ctx.call(rros.ReferenceFrameMarkerPublisher, a.obj, b.obj,
                       publish_interval=iv)
    else:
        pub = ctx.call(rros.ReferenceFrameTransformBroadcaster, a.obj, b.obj,
                       subscribe=sub)
    start = 0
    if not marker and rng.random() < 0.5:
        start = pub.idx = int(rng.integers(len(ts)))
    total = int(rng.integers(1, 3 * len(ts) + 3))
    count = [0]
    where = "sleep" if marker or sub else rng.choice(["tf", "sleep"])
    kind = "publish" if marker else "tf"
    how = rng.choice(["stop", "shutdown"])

    def hook(k, payload):
        if k == where:
            count[0] += 1
            if count[0] == total:
                if how == "stop":
                    pub.stop()
                else:
                    HUB.shutdown = True
        if count[0] > total + 3:
            raise Violation("stop", "loop goes on after " + str(how))

    HUB.hook = hook
    ctx.call(pub.spin, block=True)
    HUB.hook = None
    ms = messages(kind)
    if sub and not marker:
        ctx.check(HUB.spins == 1 and not ms, "cycle",
                  "a subscribed broadcaster only waits for messages",
                  got=HUB.log)
    elif marker:
        ctx.check(len(ms) == 1, "changed-only", "messages", got=len(ms))
        ctx.check(all(s == iv for s in HUB.sleeps), "cycle", "interval",
                  got=HUB.sleeps)
        ctx.check(len(HUB.sleeps) == total, "stop", "iterations",
                  got=len(HUB.sleeps), want=total)
    else:
        ctx.check(len(ms) == total, "stop", "messages sent", got=len(ms),
                  want=total)
        for k, m in enumerate(ms):
            i = (start + k) % len(ts)
            check_msg(ctx, m, a, b, t[i], R[i], ts[i], "cycle")
    ctx.check(pub.stopped is True, "stop", "stopped flag")
    ctx.nontrivial(marker, sub, str(where), str(how), total > len(ts))


# ------------------------------------------------------------------- markers
@prop.scenario(3)
def marker(ctx):
    rng = ctx.rng
    HUB.reset()
    n = int(rng.choice([1, 2, 3, 10, 11, 99, 100, 101, G.count(
        rng, 2, 400, 0.02, 4.5)]))
    rootm = G.root(ctx, rbm)
    clock = dclock(ctx)
    ts = clock.make(0.0, np.full(max(n - 1, 0), 0.5))
    stat = rng.random() < 0.15 or n == 1
    t = G.vec(rng, () if stat else n)
    t[..., 0] = np.arange(n)[0 if stat else slice(None)] + rng.uniform(
        0, 0.5, () if stat else n)  # distinct points
    kw = {} if stat else {"timestamps": ts}
    a = rbm.ReferenceFrame(G.fresh_name(), parent=rootm.obj, translation=t,
                           **kw)
    want = np.atleast_2d(t)
    n = len(want)
    mp = int(rng.choice([1, 2, 3, 7, 50, 100, 500, n, max(n - 1, 1)]))
    given = {"max_points": mp}
    if rng.random() < 0.2:
        given, mp = {}, 1000
    topic = None if rng.random() < 0.5 else "/my/topic"
    if topic:
        given["topic"] = topic
    scale = float(rng.uniform(0.01, 2))
    if rng.random() < 0.5:
        given["scale"] = scale
    else:
        scale = 0.1
    rgba = [int(x) for x in rng.integers(0, 256, 4)]
    if rng.random() < 0.5:
        given["color"] = "#" + "".join("%02x" % x for x in rgba)
    else:
        rgba = [255] * 4
    if rng.random() < 0.5:
        given["base"] = rootm.obj
    pub = ctx.call(rros.ReferenceFrameMarkerPublisher, a, **given)
    for _ in range(int(rng.integers(1, 4))):
        ctx.call(pub.publish)
    ms = messages("publish")
    ctx.check(len(ms) == 1, "changed-only", "published once", got=len(ms))
    (k, ch, m, _) = HUB.log[0]
    ctx.check(ch == (topic or f"/{a.name}/path"), "marker", "topic", got=ch)
    ctx.check(m.header.frame_id == rootm.name, "marker", "frame", got=m)
    ctx.check(m.type == MSG["Marker"].LINE_STRIP, "marker", "type", got=m)
    ctx.close([m.color.r, m.color.g, m.color.b, m.color.a],
              np.array(rgba) / 255, "marker", 1e-12, "color")
    ctx.close(xyz(m.scale), [scale, 0, 0], "marker", 1e-12, "scale")
    ctx.close(xyz(m.pose.position), np.zeros(3), "marker", 0, "position")
    ctx.close(wxyz(m.pose.orientation), [1, 0, 0, 0], "marker", 0, "orient.")
    pts = np.array([xyz(p) for p in m.points]).reshape(-1, 3)
    ctx.check(1 <= len(pts) <= mp, "marker", "number of points",
              got=len(pts), max_points=mp, n=n)
    if n <= mp:
        ctx.close(pts, want, "marker", 1e-12, "all points")
    else:
        # evenly sub-sampled in order
        idx, j = [], 0
        for p in pts:
            while j < n and not np.allclose(want[j], p, 1e-12, 1e-12):
                j += 1
            ctx.check(j < n, "marker", "point not on the path or out of "
                      "order", got=p)
            idx.append(j)
            j += 1
        d = np.diff(idx)
        ctx.check(len(d) == 0 or d.max() - d.min() <= 1, "marker",
                  "not evenly sub-sampled", got=idx)
        ctx.check(len(pts) >= min(mp, n) / 2, "marker",
                  "far fewer points than allowed", got=len(pts), mp=mp, n=n)
        if len(d):
            ctx.check(n - 1 - idx[-1] <= d.max() and idx[0] <= d.max(),
                      "marker", "part of the path is missing", got=idx)
    # a changed marker is published again, exactly once
    HUB.log.clear()
    pub.marker.points = pub.marker.points + [MSG["Point"](1.0, 2.0, 3.0)]
    ctx.call(pub.publish)
    ctx.call(pub.publish)
    ms = messages("publish")
    ctx.check(len(ms) == 1 and len(ms[0].points) == len(pts) + 1,
              "changed-only", "changed marker", got=len(ms))
    pub.marker.color.r = (pub.marker.color.r + 0.5) % 1.0
    ctx.call(pub.publish)
    ctx.check(len(messages("publish")) == 2, "changed-only", "changed colour")
    # get_marker / hex_to_rgba
    ty = int(rng.integers(0, 12))
    s = [float(x) for x in rng.uniform(0.1, 2, 3)]
    pos, ori = G.vec(rng), G.quat(rng)
    g = ctx.call(rvis.get_marker, ty, "fr", s, "#%02x%02x%02x%02x" % tuple(
        rgba), pos, ori[[1, 2, 3, 0]])
    ctx.check(g.type == ty and g.header.frame_id == "fr", "marker",
              "get_marker", got=g)
    ctx.close(xyz(g.scale), s, "marker", 1e-12)
    ctx.close(xyz(g.pose.position), pos, "marker", 1e-12)
    ctx.close(wxyz(g.pose.orientation), ori, "marker", 1e-12)
    # one number scales all axes, whatever its type
    s = [1.5, 2, np.float32(0.5), np.float64(0.25), np.int64(3)][
        rng.integers(5)]
    g = ctx.call(rvis.get_marker, scale=s)
    ctx.close(xyz(g.scale), [s, s, s], "marker", 1e-12)
    g = ctx.call(rvis.get_marker)
    ctx.check(g.type == 4 and g.header.frame_id == "world", "marker",
              "get_marker defaults", got=g)
    ctx.nontrivial(n > mp, stat, bool(topic), min(n, 4), mp)


@prop.scenario(1)
def marker_tree(ctx):
    """The path of any frame wrt any other one, and who gets to see it."""
    rng = ctx.rng
    HUB.reset()
    got = moving_pair(ctx, 1)
    if got is None:
        return
    models, a, b, t, R, ts = got
    kw = {}
    if b is not a.parent or rng.random() < 0.5:
        kw["base"] = G.ref(ctx, b)
    if len(ts) > 1000:  # more than the default
        kw["max_points"] = len(ts)
    pub = ctx.call(rros.ReferenceFrameMarkerPublisher, G.ref(ctx, a), **kw)
    ctx.call(pub.publish)
    (k, ch, m, _), = HUB.log
    ctx.check(m.header.frame_id == b.name, "path", "frame", got=m)
    sc = 1 + np.abs(t).max()
    ctx.close(np.array([xyz(p) for p in m.points]) / sc, t / sc, "path", 1e-9)
    late_viewer(ctx, ch, m)
    given = {}
    if rng.random() < 0.5:
        given["ros"] = fakeros.ROSConnection("ws://other")
    if rng.random() < 0.5:
        given["tf_client"] = fakeros.TFClient(fixed_frame="elsewhere")
    w = ctx.call(pub.get_ros3d_widget, **given)
    ctx.check(isinstance(w, fakeros.Ros3dMarker) and w.topic == ch, "widget",
              "shows the topic of the path", got=vars(w))
    ctx.check(isinstance(w.ros, fakeros.ROSConnection) and w.ros is given.get(
        "ros", w.ros), "widget", "connection", got=w.ros)
    c = w.tf_client
    ctx.check(isinstance(c, fakeros.TFClient) and c is given.get(
        "tf_client", c), "widget", "tf client", got=c)
    if "tf_client" not in given:
        ctx.check(c.fixed_frame == b.name and c.ros is w.ros, "widget",
                  "fixed frame", got=vars(c))
    ctx.nontrivial(a.parent is b, len(ts) > 4, *given)


@prop.scenario(1)
def filtered_twist(ctx):
    """The filter options are those of lookup_twist."""
    rng = ctx.rng
    HUB.reset()
    clock = dclock(ctx)
    n = int(rng.integers(30, 60))
    ts = clock.make(0.0, np.full(n - 1, 0.125))
    w = rbm.ReferenceFrame(G.fresh_name())
    p = rbm.ReferenceFrame(G.fresh_name(), parent=w,
                           translation=G.vec(rng, (), 1.0),
                           rotation=G.quat(rng))
    x = np.cumsum(rng.standard_normal((n, 3)), 0) * 0.02
    x[int(rng.integers(8, n - 8))] += 1.0
    a = rbm.ReferenceFrame(G.fresh_name(), parent=p, translation=x,
                           rotation=G.walk_quat(rng, n, 0.2), timestamps=ts)
    opt = {}
    if rng.random() < 0.7:
        opt["cutoff"] = float(rng.uniform(0.1, 0.9))
    if rng.random() < 0.7:
        opt["outlier_thresh"] = float(rng.uniform(0.3, 0.6))
    base = rng.choice(np.array([None, w, p], object))
    br = ctx.call(rros.ReferenceFrameTransformBroadcaster, a, base,
                  publish_twist=True,
                  **{"twist_" + k: v for k, v in opt.items()})
    lin, ang = ctx.call(rbm.lookup_twist, a, base or p, a, **opt)
    for i in rng.integers(0, n, 8):
        HUB.log.clear()
        ctx.call(br.publish, int(i))
        m, = messages("publish", f"/{a.name}/twist")
        ctx.close(xyz(m.twist.linear), lin[i], "twist", 1e-9, "linear")
        ctx.close(xyz(m.twist.angular), ang[i], "twist", 1e-9, "angular")
    ctx.nontrivial(base is None, *opt)


# --------------------------------------------------------- playback and nodes
@prop.scenario(1)
def playback(ctx):
    rng = ctx.rng
    HUB.reset()
    HUB.widgets, HUB.links = [], []
    n = int(rng.integers(2, 40))
    dt = float(rng.choice([0.02, 0.1, 0.5, 1.0]))
    clock = G.Clock(rng, rng.choice(["ns", "us", "ms"]))
    if rng.random() < 0.5:
        ts = clock.make(0.0, np.full(n - 1, dt))
    else:
        # more or less regular, with a gap or jitter
        steps = dt * rng.uniform(0.5, 1.5, n - 1)
        if rng.random() < 0.5:
            steps[rng.integers(n - 1)] *= rng.uniform(5, 50)
        ts = clock.make(0.0, steps)
        dt = float(sec(ts[-1:])[0] - sec(ts[:1])[0]) / (n - 1)
    ts = list(ts) if rng.random() < 0.2 else ts
    pubd = []

    class P:
        def publish(self, idx=None):
            pubd.append(idx)

    p = P()
    kw = {}
    if rng.random() < 0.5:
        import pandas as pd

        p.timestamps = pd.Index(ts) if rng.random() < 0.5 else ts
    else:
        kw["timestamps"] = ts
    step = int(rng.integers(1, 4))
    speed = float(rng.choice([0.5, 1.0, 2.0]))
    skip = None if rng.random() < 0.5 else int(rng.integers(1, 5))
    if step != 1 or rng.random() < 0.5:
        kw["step"] = step
    if speed != 1.0:
        kw["speed"] = speed
    if skip:
        kw["skip"] = skip
    with fakeros.fake_ipython():
        ctx.call(rros.play_publisher, p, **kw)
    sl = next(w for w in HUB.widgets if isinstance(w, fakeros.IntSlider))
    play = next(w for w in HUB.widgets if isinstance(w, fakeros.Play))
    fwd, bwd = [w for w in HUB.widgets if isinstance(w, fakeros.Button)]
    ctx.check((sl.min, sl.max) == (0, n - 1), "playback", "slider range",
              got=(sl.min, sl.max), n=n)
    ctx.check((play.min, play.max, play.step) == (0, n - 1, step), "playback",
              "play range", got=vars(play))
    ctx.check(abs(play.interval - 1000 * dt / speed * step) <= 1.01 + step,
              "playback", "interval in ms", got=play.interval,
              want=1000 * dt / speed * step)
    ctx.check(any({id(x[0]) for x in ln} == {id(play), id(sl)} and all(
        x[1] == "value" for x in ln) for ln in HUB.links), "playback",
              "play drives the slider")
    for _ in range(5):
        i = int(rng.integers(0, n))
        sl.value = i
        ctx.check(pubd[-1] == i, "playback", "slider publishes its index",
                  got=pubd[-3:], want=i)
    k = skip or step
    sl.value = 0
    fwd.click()
    ctx.check(pubd[-1] == min(k, n - 1), "playback", "forward", got=pubd[-3:])
    sl.value = n // 2
    bwd.click()
    ctx.check(pubd[-1] == max(n // 2 - k, 0), "playback", "backward",
              got=pubd[-3:])
    sl.value = n - 1
    bwd.click()
    ctx.check(pubd[-1] == max(n - 1 - k, 0), "playback", "backward from end",
              got=pubd[-3:])
    bwd.click()
    ctx.check(pubd[-1] == max(n - 1 - 2 * k, 0), "playback", "backward twice",
              got=pubd[-3:])
    sl.value = n - 1
    fwd.click()
    ctx.check(pubd[-1] == n - 1 and sl.value == n - 1, "playback",
              "forward at end", got=pubd[-3:])
    ctx.nontrivial(step, speed, skip, n < 5)


@prop.scenario(1)
def node(ctx):
    import warnings

    rng = ctx.rng
    HUB.reset()
    HUB.master_running = bool(rng.random() < 0.5)
    start = bool(rng.random() < 0.6)
    running = HUB.master_running
    name = G.fresh_name("node")
    kw = {"start_master": True} if start else {}
    if not running and not start:
        ctx.rejects(RuntimeError, rros.init_node, name, **kw)
        ctx.check(not HUB.masters and not HUB.nodes, "node",
                  "node registered without master", got=HUB.nodes)
    else:
        m = ctx.call(rros.init_node, name, **kw)
        ctx.check(HUB.nodes == [name], "node", "node name", got=HUB.nodes)
        if running:
            ctx.check(not HUB.masters, "node", "second master started")
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                ctx.call(m.shutdown)
            ctx.check(len(w) == 1 and HUB.master_running, "node",
                      "shutting down a foreign master", got=w)
        else:
            ctx.check(len(HUB.masters) == 1 and HUB.masters[0].started == 1
                      and HUB.masters[0].args[2] is True, "node",
                      "master started", got=HUB.masters)
            ctx.call(m.shutdown)
            ctx.check(not HUB.master_running, "node", "master shut down")
    ctx.nontrivial(running, start)

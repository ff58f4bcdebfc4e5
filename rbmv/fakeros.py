"""Recording stand-ins for the ROS client libraries.

``install()`` puts fake modules in ``sys.modules``.  They implement the part of
the public rospy / rosbag / tf2 / message interfaces that rigid_body_motion.ros
uses, following the documented behaviour of the real ones, and record every
message that leaves the library (``HUB.log``) together with the thread that
sent it.  Virtual time only: rospy.sleep() records and calls the hook.
"""

import collections
import pickle
import struct
import sys
import threading
import types

import numpy as np

from . import oracle as O


class Hub:
    def __init__(self):
        self.reset()

    def reset(self):
        self.lock = threading.Lock()
        self.log = []  # (kind, channel, message copy, thread id)
        self.sleeps = []
        self.shutdown = False
        self.hook = None  # called as hook(point, payload) at every event
        self.publishers = []
        self.subscribers = []
        self.broadcasters = []
        self.bags = {}
        self.closed = 0
        self.nodes = []
        self.master_running = True
        self.masters = []
        self.now = 1.0
        self.spins = 0

    def emit(self, kind, channel, msg):
        with self.lock:
            self.log.append(
                (kind, channel, pickle.loads(pickle.dumps(msg)),
                 threading.get_ident())
            )
        if self.hook is not None:
            self.hook(kind, msg)


HUB = Hub()


# ------------------------------------------------------------------- messages
class Message:
    __slots__ = ()
    _defaults = ()
    _has_header = False
    _type = ""

    def __init__(self, *args, **kwargs):
        if args and len(args) != len(self.__slots__):
            raise TypeError(
                f"{type(self).__name__}: expected {len(self.__slots__)} "
                f"arguments, got {len(args)}"
            )
        for i, name in enumerate(self.__slots__):
            d = self._defaults[i]
            v = args[i] if args else kwargs.pop(name, None)
            if v is None:
                v = d() if callable(d) else d
            setattr(self, name, v)
        if kwargs:
            raise AttributeError(f"no such fields {sorted(kwargs)}")

    def __eq__(self, o):
        return type(self) is type(o) and all(
            getattr(self, s) == getattr(o, s) for s in self.__slots__
        )

    def __repr__(self):
        return f"{type(self).__name__}(" + ", ".join(
            f"{s}={getattr(self, s)!r}" for s in self.__slots__) + ")"

    def serialize(self, buff):
        """Numeric fields must be serializable like in ROS."""
        for s in self.__slots__:
            _ser(getattr(self, s), buff)

    def __getstate__(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __setstate__(self, st):
        for s, v in zip(self.__slots__, st):
            setattr(self, s, v)


def _ser(v, buff):
    if isinstance(v, (Message, _T)):
        v.serialize(buff)
    elif isinstance(v, str):
        b = v.encode()
        buff.write(struct.pack("<I", len(b)) + b)
    elif isinstance(v, (list, tuple)):
        buff.write(struct.pack("<I", len(v)))
        for x in v:
            _ser(x, buff)
    elif isinstance(v, (bool, np.bool_)):
        buff.write(struct.pack("<B", bool(v)))
    elif isinstance(v, (int, np.integer)):
        buff.write(struct.pack("<q", int(v)))
    else:
        buff.write(struct.pack("<d", v))


class _T:
    """genpy.TVal: secs and nsecs."""

    def __init__(self, secs=0, nsecs=0):
        secs, nsecs = int(secs), int(nsecs)
        self.secs = secs + nsecs // 10**9
        self.nsecs = nsecs % 10**9

    @classmethod
    def from_sec(cls, float_secs):
        secs = int(float_secs)
        nsecs = int((float_secs - secs) * 1000000000)
        return cls(secs, nsecs)

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs

    def is_zero(self):
        return self.to_nsec() == 0

    def serialize(self, buff):
        buff.write(struct.pack("<qq", self.secs, self.nsecs))

    def __eq__(self, o):
        return isinstance(o, _T) and self.to_nsec() == o.to_nsec()

    def __hash__(self):
        return hash(self.to_nsec())

    def __repr__(self):
        return f"{type(self).__name__}({self.secs}, {self.nsecs})"


class Time(_T):
    @classmethod
    def now(cls):
        return cls.from_sec(HUB.now)


class Duration(_T):
    pass


def _msg(pkg, name, fields, header=False):
    slots, defaults = [], []
    if header:
        fields = [("header", "Header")] + fields
    for f, d in fields:
        slots.append(f)
        if isinstance(d, str) and d in MSG:
            d = MSG[d]
        elif d == "str":
            d = ""
        defaults.append(d)
    cls = type(
        name, (Message,),
        {"__slots__": tuple(slots), "_defaults": tuple(defaults),
         "_type": f"{pkg}/{name}", "_has_header": header,
         "__module__": __name__},
    )
    MSG[name] = cls
    globals()["Msg_" + name] = cls
    cls.__qualname__ = cls.__name__ = "Msg_" + name
    PKG.setdefault(pkg, {})[name] = cls
    return cls


MSG, PKG = {}, {}
_msg("std_msgs", "Header", [("seq", 0), ("stamp", Time), ("frame_id", "str")])
_msg("std_msgs", "ColorRGBA", [(c, 0.0) for c in "rgba"])
for _n in ("Vector3", "Point"):
    _msg("geometry_msgs", _n, [(c, 0.0) for c in "xyz"])
_msg("geometry_msgs", "Quaternion", [(c, 0.0) for c in "xyzw"])
_msg("geometry_msgs", "Transform",
     [("translation", "Vector3"), ("rotation", "Quaternion")])
_msg("geometry_msgs", "Pose",
     [("position", "Point"), ("orientation", "Quaternion")])
_msg("geometry_msgs", "Twist", [("linear", "Vector3"), ("angular", "Vector3")])
_msg("geometry_msgs", "PoseWithCovariance",
     [("pose", "Pose"), ("covariance", lambda: [0.0] * 36)])
_msg("geometry_msgs", "TwistWithCovariance",
     [("twist", "Twist"), ("covariance", lambda: [0.0] * 36)])
_msg("geometry_msgs", "TransformStamped",
     [("child_frame_id", "str"), ("transform", "Transform")], True)
_msg("geometry_msgs", "PoseStamped", [("pose", "Pose")], True)
_msg("geometry_msgs", "TwistStamped", [("twist", "Twist")], True)
_msg("geometry_msgs", "Vector3Stamped", [("vector", "Vector3")], True)
_msg("geometry_msgs", "PointStamped", [("point", "Point")], True)
_msg("geometry_msgs", "QuaternionStamped", [("quaternion", "Quaternion")], True)
_msg("nav_msgs", "Odometry",
     [("child_frame_id", "str"), ("pose", "PoseWithCovariance"),
      ("twist", "TwistWithCovariance")], True)
_msg("tf", "tfMessage", [("transforms", list)])
_msg("visualization_msgs", "Marker",
     [("ns", "str"), ("id", 0), ("type", 0), ("action", 0), ("pose", "Pose"),
      ("scale", "Vector3"), ("color", "ColorRGBA"), ("lifetime", Duration),
      ("frame_locked", False), ("points", list), ("colors", list),
      ("text", "str"), ("mesh_resource", "str"),
      ("mesh_use_embedded_materials", False)], True)
for _i, _n in enumerate(
    ["ARROW", "CUBE", "SPHERE", "CYLINDER", "LINE_STRIP", "LINE_LIST",
     "CUBE_LIST", "SPHERE_LIST", "POINTS", "TEXT_VIEW_FACING",
     "MESH_RESOURCE", "TRIANGLE_LIST"]):
    setattr(MSG["Marker"], _n, _i)


# ---------------------------------------------------------------------- rospy
class Publisher:
    def __init__(self, name, data_class, queue_size=None, latch=False, **kw):
        self.name, self.data_class, self.latch = name, data_class, latch
        self.latched = None
        HUB.publishers.append(self)

    def publish(self, msg):
        if not isinstance(msg, self.data_class):
            raise TypeError(f"{self.name}: {type(msg)}")
        if self.latch:
            self.latched = pickle.dumps(msg)
        HUB.emit("publish", self.name, msg)


class Subscriber:
    def __init__(self, name, data_class, callback=None, **kw):
        self.name, self.data_class, self.callback = name, data_class, callback
        HUB.subscribers.append(self)
        for p in HUB.publishers:  # latched topics: the last message again
            if p.name == name and p.latched is not None:
                callback(pickle.loads(p.latched))


class ROSConnection:
    def __init__(self, url="ws://localhost:9090"):
        self.url = url


class TFClient:
    def __init__(self, ros=None, fixed_frame="", **kw):
        self.ros, self.fixed_frame = ros, fixed_frame


class Ros3dMarker:
    def __init__(self, ros=None, tf_client=None, topic="", path="/", **kw):
        self.ros, self.tf_client = ros, tf_client
        self.topic, self.path = topic, path


def _sleep(dt):
    if isinstance(dt, _T):
        dt = dt.to_sec()
    with HUB.lock:
        HUB.sleeps.append(float(dt))
        HUB.now += max(float(dt), 0.0)
    if HUB.hook is not None:
        HUB.hook("sleep", dt)


def _is_shutdown():
    if HUB.hook is not None:
        HUB.hook("is_shutdown", None)
    return HUB.shutdown


def _spin():
    HUB.spins += 1
    if HUB.hook is not None:
        HUB.hook("spin", None)


class _Master:
    def getPid(self):
        if not HUB.master_running:
            raise ConnectionRefusedError()
        return (1, "", 1234)


class ROSLaunchParent:
    def __init__(self, run_id, roslaunch_files, is_core=False, **kw):
        self.args = (run_id, list(roslaunch_files), is_core)
        self.started = self.stopped = 0
        HUB.masters.append(self)

    def start(self):
        self.started += 1
        HUB.master_running = True

    def shutdown(self):
        self.stopped += 1
        HUB.master_running = False


# ------------------------------------------------------------------------ bag
TopicTuple = collections.namedtuple(
    "TopicTuple", "msg_type message_count connections frequency")
TypesAndTopics = collections.namedtuple("TypesAndTopics", "msg_types topics")
BagMessage = collections.namedtuple("BagMessage", "topic message timestamp")


class Bag:
    def __init__(self, f, mode="r", **kw):
        self.path, self.mode = str(f), mode
        if mode == "r":
            if self.path not in HUB.bags:
                raise FileNotFoundError(self.path)
        elif mode == "w":
            HUB.bags[self.path] = []
        else:
            raise ValueError(mode)
        self._closed = False

    def _check(self):
        if self._closed:
            raise ValueError("I/O operation on closed bag")

    def write(self, topic, msg, t=None, raw=False):
        self._check()
        if self.mode != "w":
            raise ValueError("bag not open for writing")
        if not topic:
            raise ValueError("topic is invalid")
        HUB.now += 0.001
        t = t or Time.from_sec(HUB.now)
        HUB.bags[self.path].append((topic, pickle.dumps(msg), t))

    def get_type_and_topic_info(self, topic_filters=None):
        self._check()
        if isinstance(topic_filters, str):
            topic_filters = [topic_filters]
        topics = {}
        for topic, m, _ in HUB.bags[self.path]:
            if topic_filters and topic not in topic_filters:
                continue
            n = topics[topic].message_count if topic in topics else 0
            topics[topic] = TopicTuple(pickle.loads(m)._type, n + 1, 1, None)
        return TypesAndTopics({}, topics)

    def read_messages(self, topics=None, start_time=None, end_time=None,
                      **kw):
        self._check()
        if isinstance(topics, str):
            topics = [topics]
        for topic, m, t in sorted(HUB.bags[self.path],
                                  key=lambda x: x[2].to_nsec()):
            if topics and topic not in topics:
                continue
            yield BagMessage(topic, pickle.loads(m), t)

    def close(self):
        if not self._closed:
            HUB.closed += 1
        self._closed = True


# ------------------------------------------------------------------------ tf2
class LookupException(Exception):
    pass


class ConnectivityException(Exception):
    pass


class ExtrapolationException(Exception):
    pass


class Buffer:
    """tf2 buffer: linear / slerp interpolation between stamped transforms."""

    SLACK = 1000  # ns; sub-microsecond rounding of stamps is not judged

    def __init__(self, cache_time=None, debug=True):
        self.cache = (cache_time or Duration(10)).to_nsec()
        self.static, self.moving, self.parent = {}, {}, {}
        HUB.buffers = getattr(HUB, "buffers", [])
        HUB.buffers.append(self)

    @staticmethod
    def _unpack(msg):
        t, r = msg.transform.translation, msg.transform.rotation
        q = np.array([r.w, r.x, r.y, r.z], float)
        v = np.array([t.x, t.y, t.z], float)
        if not np.all(np.isfinite(q)) or not np.all(np.isfinite(v)):
            raise ValueError("nan in transform")
        if abs(np.dot(q, q) - 1) > 1e-3:
            raise ValueError("quaternion not normalized")
        if not msg.header.frame_id or not msg.child_frame_id:
            raise ValueError("empty frame id")
        return v, q

    def set_transform_static(self, msg, authority):
        v, q = self._unpack(msg)
        c = msg.child_frame_id
        if msg.header.frame_id == c:
            raise ValueError("self transform")
        self.parent[c] = msg.header.frame_id
        self.static[c] = (v, q)
        HUB.emit("static", c, msg)

    def set_transform(self, msg, authority):
        v, q = self._unpack(msg)
        c = msg.child_frame_id
        if msg.header.frame_id == c:
            raise ValueError("self transform")
        ns = msg.header.stamp.to_nsec()
        store = self.moving.setdefault(c, [])
        if store and ns + self.cache + self.SLACK < store[-1][0]:
            return  # too old
        self.parent[c] = msg.header.frame_id
        store.append((ns, v, q))
        store.sort(key=lambda x: x[0])
        while store[0][0] + self.cache + self.SLACK < store[-1][0]:
            store.pop(0)
        HUB.emit("moving", c, msg)

    def _chain(self, f):
        out = [f]
        while f in self.parent:
            f = self.parent[f]
            out.append(f)
            if len(out) > 100:
                raise LookupException("loop")
        return out

    def _known(self, f):
        if f not in self.parent and f not in self.parent.values():
            raise LookupException(f"frame {f} does not exist")

    def _at(self, f, ns):
        if f in self.static:
            v, q = self.static[f]
            return v, O.q2R(q)
        s = self.moving[f]
        if ns < s[0][0] - self.SLACK or ns > s[-1][0] + self.SLACK:
            raise ExtrapolationException(f)
        st = [x[0] for x in s]
        i = int(np.clip(np.searchsorted(st, ns) - 1, 0, max(len(s) - 2, 0)))
        if len(s) == 1:
            return s[0][1], O.q2R(s[0][2])
        a, b = s[i], s[i + 1]
        tau = (ns - a[0]) / (b[0] - a[0])
        if abs(tau) < 1e-12:
            return a[1], O.q2R(a[2])
        qa, qb = a[2], b[2]
        if np.dot(qa, qb) < 0:
            qb = -qb
        return a[1] + tau * (b[1] - a[1]), O.q2R(O.slerp(qa, qb, tau))

    def lookup_transform(self, target, source, time, timeout=None):
        self._known(target)
        self._known(source)
        cs, ct = self._chain(source), self._chain(target)
        common = next((f for f in cs if f in ct), None)
        if common is None:
            raise ConnectivityException()
        up = cs[: cs.index(common)]
        down = ct[: ct.index(common)][::-1]
        ns = time.to_nsec()
        if ns == 0:
            latest = [self.moving[f][-1][0] for f in up + down
                      if f in self.moving]
            ns = min(latest) if latest else 0
        t, R = np.zeros(3), np.eye(3)
        for f in up:
            v, Q = self._at(f, ns)
            t, R = Q @ t + v, Q @ R
        for f in down:
            v, Q = self._at(f, ns)
            t, R = Q.T @ (t - v), Q.T @ R
        m = MSG["TransformStamped"]()
        m.header.stamp = Time(0, ns)
        m.header.frame_id, m.child_frame_id = target, source
        q = R2q(R)
        m.transform.translation = MSG["Vector3"](*map(float, t))
        m.transform.rotation = MSG["Quaternion"](*map(float, (*q[1:], q[0])))
        return m

    def can_transform(self, target, source, time, timeout=None):
        try:
            self.lookup_transform(target, source, time)
        except (LookupException, ConnectivityException,
                ExtrapolationException):
            return False
        return True


def R2q(R):
    K = np.array([
        [R[0, 0] + R[1, 1] + R[2, 2], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0],
         R[1, 0] - R[0, 1]],
        [0, R[0, 0] - R[1, 1] - R[2, 2], R[1, 0] + R[0, 1],
         R[2, 0] + R[0, 2]],
        [0, 0, R[1, 1] - R[0, 0] - R[2, 2], R[2, 1] + R[1, 2]],
        [0, 0, 0, R[2, 2] - R[0, 0] - R[1, 1]],
    ])
    K = (K + K.T - np.diag(np.diag(K))) / 3
    w, V = np.linalg.eigh(K)
    return V[:, -1]


class _Broadcaster:
    kind = "tf"

    def __init__(self, *a, **kw):
        HUB.broadcasters.append(self)

    def sendTransform(self, transform):
        HUB.emit(self.kind, transform.child_frame_id, transform)


class StaticTransformBroadcaster(_Broadcaster):
    kind = "tf_static"


def _tr(transform):
    v, q = Buffer._unpack(transform)
    return v, O.q2R(q), q


def do_transform_vector3(v, transform):
    _, R, _ = _tr(transform)
    m = MSG["Vector3Stamped"]()
    x = R @ np.array([v.vector.x, v.vector.y, v.vector.z], float)
    m.vector = MSG["Vector3"](*map(float, x))
    m.header = transform.header
    return m


def do_transform_point(p, transform):
    t, R, _ = _tr(transform)
    m = MSG["PointStamped"]()
    x = R @ np.array([p.point.x, p.point.y, p.point.z], float) + t
    m.point = MSG["Point"](*map(float, x))
    m.header = transform.header
    return m


def do_transform_pose(p, transform):
    t, R, q = _tr(transform)
    m = MSG["PoseStamped"]()
    pp, o = p.pose.position, p.pose.orientation
    x = R @ np.array([pp.x, pp.y, pp.z], float) + t
    r = O.qmul(q, np.array([o.w, o.x, o.y, o.z], float))
    m.pose.position = MSG["Point"](*map(float, x))
    m.pose.orientation = MSG["Quaternion"](*map(float, (*r[1:], r[0])))
    m.header = transform.header
    return m


# ------------------------------------------------------------ ipywidgets etc.
class IntSlider:
    def __init__(self, min=0, max=100, value=0, description="", **kw):
        self.min, self.max, self._v = min, max, value
        self.listeners = []
        HUB.widgets = getattr(HUB, "widgets", [])
        HUB.widgets.append(self)

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        v = int(min(max(v, self.min), self.max))
        changed, self._v = v != self._v, v
        if changed:
            for f in self.listeners:
                f()


class Button:
    def __init__(self, description="", layout=None, **kw):
        self.description, self.cb = description, []
        HUB.widgets.append(self)

    def on_click(self, f):
        self.cb.append(f)

    def click(self):
        for f in self.cb:
            f(self)


class Play:
    def __init__(self, interval=100, value=0, min=0, max=100, step=1, **kw):
        self.interval, self.min, self.max, self.step = interval, min, max, step
        self.value = value
        HUB.widgets.append(self)


def _interactive_output(f, controls):
    def update():
        f(**{k: c.value for k, c in controls.items()})

    for c in controls.values():
        c.listeners.append(update)
    update()
    return "output"


def _jslink(a, b):
    HUB.links = getattr(HUB, "links", [])
    HUB.links.append((a, b))


def install():
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            if p not in sys.modules:
                mod(p)
            setattr(sys.modules[p], c, m)
        return m

    mod("rospy", Time=Time, Duration=Duration, Publisher=Publisher,
        Subscriber=Subscriber, sleep=_sleep, is_shutdown=_is_shutdown,
        spin=_spin, loginfo=lambda *a, **k: None,
        get_master=lambda *a, **k: _Master(),
        init_node=lambda name, **k: HUB.nodes.append(name))
    mod("roslaunch")
    mod("roslaunch.parent", ROSLaunchParent=ROSLaunchParent)
    mod("rosbag", Bag=Bag)
    mod("tf2_ros", Buffer=Buffer, TransformBroadcaster=_Broadcaster,
        StaticTransformBroadcaster=StaticTransformBroadcaster,
        LookupException=LookupException,
        ConnectivityException=ConnectivityException,
        ExtrapolationException=ExtrapolationException)
    mod("tf2_geometry_msgs", do_transform_vector3=do_transform_vector3,
        do_transform_point=do_transform_point,
        do_transform_pose=do_transform_pose)
    for pkg, msgs in PKG.items():
        mod(pkg + ".msg", **msgs)
    mod("jupyros.ros3d", ROSConnection=ROSConnection, TFClient=TFClient,
        Marker=Ros3dMarker)
    w = mod("ipywidgets")
    mod("ipywidgets.widgets", IntSlider=IntSlider, Button=Button, Play=Play,
        Layout=lambda **k: k, HBox=lambda c: list(c), jslink=_jslink,
        interactive_output=_interactive_output)
    w.widgets = sys.modules["ipywidgets.widgets"]
    HUB.reset()
    return HUB


class fake_ipython:
    """IPython.core.display only while a widget is under test."""

    NAMES = ("IPython", "IPython.core", "IPython.core.display")

    def __enter__(self):
        self.old = {n: sys.modules.get(n) for n in self.NAMES}
        for n in self.NAMES:
            sys.modules[n] = types.ModuleType(n)
        sys.modules["IPython"].core = sys.modules["IPython.core"]
        d = sys.modules["IPython.core.display"]
        sys.modules["IPython.core"].display = d
        d.display = lambda *a, **k: None
        # newer IPython has it here
        return self

    def __exit__(self, *exc):
        for n, m in self.old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m

"""C24: malformed requests are rejected and leave everything as it was."""
import contextlib
import io

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from quaternion import as_quat_array

from .. import gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C24",
    "malformed requests",
    "for a random tree of static, moving and discrete frames (registered or "
    "not, several clocks) valid requests of every public entry point, each "
    "turned into a malformed one by a single random fault (wrong shape, "
    "length, axis, order of timestamps, unknown name, type, option, missing "
    "or conflicting argument, other tree). Monitors: the valid twin is "
    "answered, the malformed one raises the documented kind of error, and "
    "registry, parent/children links and all transforms are the same objects "
    "with the same values afterwards. Signature = (entry point, fault, form, "
    "clock).",
    quick=18000, thorough=150000,
    assumptions=["one fault per request"],
)
prop.require("monitor:unchanged", "monitor:valid-twin", "fault:")

BAD = (ValueError, IndexError)


class State:
    """Registry and trees as seen through public calls and attributes."""

    def __init__(self, models):
        self.objs = [m.obj for m in models]
        self.names = sorted({str(m.name) for m in models}) + ["nowhere"]
        self.snap = self.take()

    @staticmethod
    def resolve(name):
        try:
            return id(G.registered_obj(rbm, name))
        except ValueError:
            return None

    def take(self):
        reg = tuple(self.resolve(n) for n in self.names)
        links = tuple((id(o.parent), tuple(id(c) for c in o.children), o.name,
                       o.discrete) for o in self.objs)
        arrs = tuple(
            None if a is None else (a.dtype.str, a.shape, a.tobytes())
            for o in self.objs
            for a in (o.translation, o.rotation, o.timestamps))
        return reg, links, arrs

    def unchanged(self, ctx, what):
        now = self.take()
        for part, a, b in zip(("registry", "links", "transforms"), self.snap,
                              now):
            ctx.check(a == b, "unchanged", f"{part} changed by rejected {what}")


def world(ctx, kinds=("static", "static", "moving", "discrete")):
    frames, clock, _ = G.tree(ctx, rbm, n=int(ctx.rng.integers(2, 6)),
                              kinds=kinds)
    other = G.root(ctx, rbm)
    far = [other]
    if ctx.rng.random() < 0.5:
        far.append(G.add_frame(ctx, rbm, other, clock, "static"))
    return frames, far, clock


def no(ctx, st, exc, fault_, fn, /, *a, **k):
    ctx.events["fault:" + fault_] += 1
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.rejects(exc, fn, *a, _what=fault_, **k)
    st.unchanged(ctx, fault_)


def ok(ctx, fn, *a, **k):
    ctx.events["monitor:valid-twin"] += 1
    return ctx.call(fn, *a, **k)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def junk_shape(rng, good):
    """A shape different from ``good``."""
    good = tuple(good)
    cands = [(), good + (1,), (1,) + good, good[:-1] + (good[-1] + 1,),
             good[:-1] + (good[-1] - 1,), good[:-1], good[::-1] + (2,)]
    if len(good) == 2:
        cands += [(good[0] + 1, good[1]), (good[0] - 1, good[1]),
                  (good[1], good[0]), (1, good[1])]
    cands = [c for c in cands if c != good]
    return pick(rng, cands)


def junk_name(rng, st):
    """A name that is not registered, possibly close to one that is."""
    near = [f(n) for n in st.names for f in (
        str.upper, str.title, lambda s: s + " ", lambda s: " " + s,
        lambda s: s[:-1], lambda s: s[1:], lambda s: s + "0",
        lambda s: "/" + s, lambda s: s + "\n")]
    near = [c for c in near if c not in st.names]
    return pick(rng, ["nowhere", "", "World ", "cartesian",
                      *[pick(rng, near) for _ in range(3)]])


def junk_type(rng):
    return pick(rng, [3, 1.5, ["x"], np.zeros(3), object(), b"root", ("a",)])


@prop.scenario(4)
def frames(ctx):
    """Construction and registration of frames."""
    rng = ctx.rng
    fr, far, clock = world(ctx)
    st = State(fr + far)
    par = pick(rng, fr)
    pref = G.ref(ctx, par)
    moving = bool(rng.random() < 0.5)
    n = int(rng.integers(4, 9))
    ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock)) if moving else None
    lead = (n,) if moving else ()
    t, q = G.vec(rng, lead, 1.0), G.quat(rng, lead)
    name = pick(rng, ["new", "brandnew"] + ([par.name] if not par.reg else []))
    kw = {"translation": t, "rotation": q}
    if moving:
        kw["timestamps"] = ts
        if rng.random() < 0.4:
            kw["discrete"] = True
    if rng.random() < 0.3:
        kw["inverse"] = True
    ctor = bool(rng.random() < 0.5)

    def go(exc, what, parent=pref, name=name, **over):
        k = {a: b for a, b in {**kw, **over}.items() if b is not None}
        if ctor:
            no(ctx, st, exc, what, rbm.ReferenceFrame, name, parent=parent,
               **k)
        else:
            if rng.random() < 0.4:
                k["update"] = bool(rng.random() < 0.5)
            no(ctx, st, exc, what, rbm.register_frame, name, parent=parent,
               **k)

    fault = pick(rng, ["translation", "rotation", "timestamps-ndim",
                       "timestamps-length", "root", "unknown-parent",
                       "parent-type", "discrete", "matrix", "dataset",
                       "duplicate", "no-name", "register-twice",
                       "deregister-unknown", "decreasing"])
    if fault == "translation":
        go(ValueError, fault, translation=np.ones(junk_shape(rng, lead + (3,))))
    elif fault == "rotation":
        s = junk_shape(rng, lead + (4,))
        go(ValueError, fault, rotation=np.ones(s))
    elif fault == "timestamps-ndim":
        if not moving:
            ts = clock.make(0.0, [1.0, 1.0])
        go(ValueError, fault, timestamps=pick(
            rng, [ts[:, None], ts[None], ts[0]]))
    elif fault == "timestamps-length":
        if not moving:
            go(ValueError, fault, timestamps=clock.make(0.0, [1.0, 1.0]))
        elif rng.random() < 0.5:
            go(ValueError, fault, timestamps=ts[:-1])
        else:
            kw["timestamps"] = None
            kw.pop("discrete", None)
            go(ValueError, fault)
    elif fault == "root":
        given = pick(rng, ["translation", "rotation"] + (
            ["timestamps"] if moving else []))
        over = {k: None for k in kw if k != given}
        go(ValueError, fault, parent=None, **over)
    elif fault == "unknown-parent":
        go(ValueError, fault, parent=junk_name(rng, st))
    elif fault == "parent-type":
        go(TypeError, fault, parent=junk_type(rng))
    elif fault == "discrete":
        if moving:
            kw.update(translation=G.vec(rng, (), 1.0), rotation=None,
                      timestamps=None)
        go(ValueError, fault, discrete=True)
    elif fault == "matrix":
        R = O.q2R(G.quat(rng))
        ok(ctx, rbm.ReferenceFrame.from_rotation_matrix, R, par.obj).parent = None
        bad = pick(rng, [np.ones((4, 4)), np.ones((2, 3, 3)), np.ones((3,)),
                         np.ones((3, 4)), np.ones((9,)), np.ones((2, 2))])
        no(ctx, st, ValueError, fault, rbm.ReferenceFrame.from_rotation_matrix,
           bad, pref, "new")
        no(ctx, st, ValueError, "unknown-parent",
           rbm.ReferenceFrame.from_rotation_matrix, R, "nowhere", "new")
    elif fault == "dataset":
        if not moving:
            n = 5
            ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
            t, q = G.vec(rng, n, 1.0), G.quat(rng, n)
        ds = xr.Dataset({"p": (("t", "c"), t), "r": (("t", "q"), q)},
                        {"t": ts})
        RF = rbm.ReferenceFrame
        ok(ctx, RF.from_dataset, ds, "p", "r", "t", par.obj).parent = None
        k = int(rng.integers(5))
        if k == 0:
            no(ctx, st, ValueError, fault, RF.from_dataset, ds, "r", "p", "t",
               pref, "new")
        elif k == 1:
            no(ctx, st, ValueError, fault, RF.from_translation_dataarray,
               ds.r, "t", pref, "new")
        elif k == 2:
            no(ctx, st, ValueError, fault, RF.from_rotation_dataarray,
               ds.p, "t", pref, "new")
        elif k == 3:
            no(ctx, st, (KeyError, ValueError), fault, RF.from_dataset, ds,
               *pick(rng, [("zz", "r", "t"), ("p", "zz", "t"),
                           ("p", "r", "zz")]), pref, "new")
        else:
            no(ctx, st, ValueError, "unknown-parent", RF.from_dataset, ds, "p",
               "r", "t", "nowhere", "new")
    elif fault == "duplicate":
        reg = [m for m in fr + far if m.reg]
        if not reg:
            return
        ctor = False
        k = {a: b for a, b in kw.items()}
        no(ctx, st, ValueError, fault, rbm.register_frame, pick(rng, reg).name,
           parent=pref, **k)
        twin = rbm.ReferenceFrame(pick(rng, reg).name)
        no(ctx, st, ValueError, fault, twin.register)
        no(ctx, st, ValueError, fault, pick(rng, reg).obj.register)
    elif fault == "no-name":
        no(ctx, st, ValueError, fault, rbm.register_frame, None)
        no(ctx, st, ValueError, fault, rbm.ReferenceFrame().register)
    elif fault == "register-twice":
        reg = [m for m in fr + far if m.reg]
        if reg:
            no(ctx, st, ValueError, fault, pick(rng, reg).obj.register,
               update=False)
    elif fault == "deregister-unknown":
        no(ctx, st, (ValueError, KeyError), fault, rbm.deregister_frame,
           junk_name(rng, st))
        un = [m for m in fr + far if not m.reg]
        if un:
            no(ctx, st, (ValueError, KeyError), fault,
               pick(rng, un).obj.deregister)
    else:
        # decreasing timestamps are never interpolated
        if not moving:
            n = 5
            ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
        i = int(rng.integers(1, n))
        bad = np.array(ts)
        bad[[i - 1, i]] = bad[[i, i - 1]]
        if rng.random() < 0.2:
            bad = bad[::-1]
        disc = bool(rng.random() < 0.5)
        try:
            f = rbm.ReferenceFrame("dec", parent=par.obj,
                                   translation=G.vec(rng, n, 1.0),
                                   timestamps=bad, discrete=disc)
        except ValueError:
            f = None
        if f is not None:
            st2 = State(fr + far)
            rest = ctx.rng.permutation(2)
            a, b = (f, pick(rng, fr).obj)[::1 if rest[0] else -1]
            no(ctx, st2, ValueError, fault, pick(rng, [
                rbm.lookup_transform, rbm.lookup_pose]), a, b)
            no(ctx, st2, ValueError, fault, rbm.transform_points,
               np.ones(3), into=b, outof=a)
            f.parent = None
        else:
            ctx.events["fault:" + fault] += 1
    # nothing broke: the request without the fault is answered
    if "translation" in kw and fault not in (
            "discrete", "timestamps-length", "decreasing"):
        obj = ok(ctx, rbm.ReferenceFrame, "valid", parent=par.obj, **{
            k: v for k, v in kw.items() if v is not None})
        obj.parent = None
        st.unchanged(ctx, "valid twin removed")
    ctx.nontrivial(fault, ctor, moving, clock.kind, par.reg)
    ctx.describe(fault=fault)


LOOK = ["lookup_transform", "lookup_pose"]
VEL = ["lookup_linear_velocity", "lookup_angular_velocity", "lookup_twist"]


@prop.scenario(4)
def lookups(ctx):
    rng = ctx.rng
    fr, far, clock = world(ctx)
    st = State(fr + far)
    a, b = pick(rng, fr), pick(rng, fr)
    vel = bool(rng.random() < 0.5)
    name = pick(rng, VEL if vel else LOOK)
    fn = getattr(rbm, name)
    as_method = name != "lookup_pose" and bool(rng.random() < 0.4)
    f = getattr(rbm.ReferenceFrame, name) if as_method else fn

    def ask(exc, what, x, *rest, **k):
        if as_method and not isinstance(x, rbm.ReferenceFrame):
            no(ctx, st, exc, what, fn, x, *rest, **k)
        else:
            no(ctx, st, exc, what, f, x, *rest, **k)

    static = [m for m in fr if m.ts is None and all(
        p.ts is None for p in m.ancestors())]
    fault = pick(rng, ["unknown", "type", "other-tree", "static-velocity",
                       "no-parent", "mode", "cutoff", "dataset-static",
                       "render"])
    # the velocity functions have a representation frame as third argument
    rep = [pick(rng, fr).obj] if vel and rng.random() < 0.5 else []
    st_kw = {"allow_static": True} if vel and as_method else {}
    if fault == "unknown":
        j = junk_name(rng, st)
        k = int(rng.integers(3 if rep else 2))
        if k == 0:
            no(ctx, st, ValueError, fault, fn, j, b.obj, *rep)
        elif k == 1:
            # a falsy reference means the default (the parent)
            ask(ValueError, fault, a.obj, j or "nowhere", *rep, **st_kw)
        else:
            ask(ValueError, fault, a.obj, b.obj, j or "nowhere", **st_kw)
    elif fault == "type":
        j = pick(rng, [3, 1.5, ["x"], object(), b"root", ("a",)])
        k = int(rng.integers(3 if rep else 2))
        exc = (TypeError, ValueError) if vel else TypeError
        if k == 0:
            no(ctx, st, TypeError, fault, fn, j, b.obj, *rep)
        elif k == 1:
            ask(exc, fault, a.obj, j, *rep, **st_kw)
        else:
            ask(exc, fault, a.obj, b.obj, j, **st_kw)
        if not vel:
            no(ctx, st, TypeError, fault, f, a.obj, None)
    elif fault == "other-tree":
        x, y = pick(rng, fr), pick(rng, far)
        if rng.random() < 0.5:
            x, y = y, x
        k = int(rng.integers(2 if rep else 1))
        if k == 0:
            ask(Exception, fault, G.ref(ctx, x), G.ref(ctx, y), *(
                [G.ref(ctx, x)] if rep else []), **st_kw)
        else:
            mv = [m for m in fr if m.ts is not None and not m.discrete]
            if mv:
                m = pick(rng, mv)
                ask(Exception, fault, m.obj, m.parent.obj, pick(rng, far).obj)
        if not vel:
            no(ctx, st, Exception, fault, x.obj.get_transformation
               if hasattr(x.obj, "get_transformation") else
               x.obj.lookup_transform, y.obj)
    elif fault == "static-velocity":
        x, y = pick(rng, static), pick(rng, static)
        for g in VEL:
            no(ctx, st, ValueError, fault, getattr(rbm, g), x.obj, y.obj,
               x.obj)
            no(ctx, st, ValueError, fault, getattr(x.obj, g), y.obj, x.obj)
            ok(ctx, getattr(x.obj, g), y.obj, x.obj, allow_static=True)
    elif fault == "no-parent":
        r = pick(rng, [fr[0], far[0]])
        for g in VEL:
            no(ctx, st, (ValueError, TypeError), fault, getattr(r.obj, g),
               **({} if rng.random() < 0.5 else {"allow_static": True}))
            no(ctx, st, (ValueError, TypeError), fault, getattr(rbm, g),
               G.ref(ctx, r))
    elif fault in ("mode", "cutoff"):
        base = fr[0]
        n = 40
        ts = clock.make(0.0, np.full(n - 1, 0.1))
        m = rbm.ReferenceFrame("mv", parent=base.obj, timestamps=ts,
                               translation=np.cumsum(G.vec(rng, n, 1.0), 0),
                               rotation=G.walk_quat(rng, n))
        st = State(fr + far)
        if fault == "mode":
            bad = pick(rng, ["zz", "", "Quaternion", None, "rotation", 1])
            for g in VEL[1:]:
                ok(ctx, getattr(m, g), mode=pick(
                    rng, ["quaternion", "rotation_vector"]))
                no(ctx, st, ValueError, fault, getattr(m, g), mode=bad)
                no(ctx, st, ValueError, fault, getattr(rbm, g), m, mode=bad)
            ok(ctx, rbm.estimate_angular_velocity, m.rotation, timestamps=ts)
            no(ctx, st, ValueError, fault, rbm.estimate_angular_velocity,
               m.rotation, timestamps=ts, mode=bad)
        else:
            bad = float(pick(rng, [0.0, 1.0, -0.2, 1.5, 7.0]))
            for g in VEL:
                ok(ctx, getattr(m, g), cutoff=0.3)
                no(ctx, st, ValueError, fault, getattr(m, g), cutoff=bad)
            no(ctx, st, ValueError, fault, rbm.estimate_linear_velocity,
               m.translation, timestamps=ts, cutoff=bad)
        m.parent = None
    elif fault == "dataset-static":
        x, y = pick(rng, fr), pick(rng, far)
        no(ctx, st, Exception, "other-tree", fn, x.obj, y.obj,
           as_dataset=True) if name in LOOK else None
        no(ctx, st, ValueError, "unknown", rbm.lookup_transform, "nowhere",
           y.obj, as_dataset=True)
    else:
        no(ctx, st, ValueError, "unknown", rbm.render_tree,
           junk_name(rng, st))
        no(ctx, st, TypeError, "type", rbm.render_tree,
           pick(rng, [3, None, ["x"]]))
    ok(ctx, rbm.lookup_transform, a.obj, a.obj)
    ctx.nontrivial(fault, name, as_method, clock.kind)
    ctx.describe(fault=fault, fn=name)


TR = {"transform_points": 3, "transform_vectors": 3,
      "transform_quaternions": 4, "transform_linear_velocity": 3,
      "transform_angular_velocity": 3}


@prop.scenario(5)
def transforms(ctx):
    rng = ctx.rng
    fr, far, clock = world(ctx, ("static", "static", "static", "discrete"))
    st = State(fr + far)
    a, b = pick(rng, fr), pick(rng, fr)
    name = pick(rng, list(TR))
    w = TR[name]
    velo = name.endswith("velocity")
    n = int(rng.integers(5, 9))
    ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
    if rng.random() < 0.5:
        mid = ()
    else:
        mid = (int(rng.choice([2, 5, 6])),)
    arr = rng.standard_normal((n,) + mid + (w,))
    if w == 4:
        arr /= np.linalg.norm(arr, axis=-1, keepdims=True)
    method = bool(rng.random() < 0.45)
    kw = {}
    if velo:
        # static trees: these need no further frames
        kw["what"] = pick(rng, ["representation_frame"] + (
            ["reference_frame", "moving_frame"]
            if name == "transform_angular_velocity" and all(
                m.ts is None for m in fr) else []))

    def run(check, x=arr, exc=None, fault_=None, src=None, dst=None, **k):
        src = G.ref(ctx, a) if src is None else src
        dst = G.ref(ctx, b) if dst is None else dst
        k = {**kw, **k}
        if method and isinstance(src, rbm.ReferenceFrame) and "dim" not in k:
            args = (getattr(src, name), x, dst)
        else:
            args = (getattr(rbm, name), x)
            k.update(into=dst, outof=src)
        if check:
            return ok(ctx, *args, **k)
        return no(ctx, st, exc, fault_, *args, **k)

    run(True, timestamps=ts)
    fault = pick(rng, ["width", "scalar", "axis-range", "ts-length",
                       "ts-ndim", "time-axis-range", "same-axis",
                       "decreasing", "unknown", "type", "other-tree",
                       "what", "dim", "outof", "da-timestamps", "across",
                       "moving-frame", "static-across"])
    if fault == "width":
        bad = int(pick(rng, [k for k in (1, 2, 3, 4, 5, 6, 8) if k != w]))
        run(False, rng.standard_normal((n,) + mid + (bad,)), BAD, fault,
            **({"timestamps": ts} if rng.random() < 0.5 else {}))
        x = np.moveaxis(arr, -1, 0)
        if all(m.ts is None for m in fr):
            run(True, x, axis=0)
        if x.shape[-1] != w:
            run(False, x, BAD, fault)
    elif fault == "scalar":
        run(False, 1.0, BAD, fault)
    elif fault == "axis-range":
        nd = arr.ndim
        run(False, arr, BAD, fault, axis=pick(rng, [nd, nd + 2, -nd - 1]))
    elif fault == "ts-length":
        run(False, arr, BAD, fault, timestamps=pick(rng, [
            ts[:-1], clock.make(0.0, np.ones(n + 2)), ts[:0]]))
    elif fault == "ts-ndim":
        run(False, arr, BAD, fault, timestamps=pick(rng, [
            ts[:, None], ts[None], ts[0]]))
    elif fault == "time-axis-range":
        run(False, arr, BAD, fault, timestamps=ts,
            time_axis=arr.ndim + 1)
    elif fault == "same-axis":
        x = rng.standard_normal((w,) + mid + (n,))
        run(False, x, BAD, fault, timestamps=clock.make(0.0, np.ones(w - 1)),
            axis=0, time_axis=0)
        x = rng.standard_normal((n,) + mid + (w,))
        run(False, x, BAD, fault, timestamps=clock.make(0.0, np.ones(w - 1)),
            axis=-1, time_axis=x.ndim - 1)
    elif fault == "decreasing":
        i = int(rng.integers(1, n))
        bad = np.array(ts)
        bad[[i - 1, i]] = bad[[i, i - 1]]
        run(False, arr, ValueError, fault, timestamps=pick(
            rng, [bad, ts[::-1]]))
    elif fault == "unknown":
        k = rng.random() < 0.5
        run(False, arr, ValueError, fault, timestamps=ts,
            **({"src": junk_name(rng, st)} if k and not method else
               {"dst": junk_name(rng, st)}))
    elif fault == "type":
        j = pick(rng, [3, 1.5, ["x"], object(), b"root", ("a",)])
        run(False, arr, (TypeError, ValueError) if velo else TypeError, fault,
            timestamps=ts,
            **({"src": j} if rng.random() < 0.5 else {"dst": j}))
    elif fault == "other-tree":
        x, y = pick(rng, fr), pick(rng, far)
        if rng.random() < 0.5:
            x, y = y, x
        run(False, arr, Exception, fault, timestamps=ts, src=G.ref(ctx, x),
            dst=G.ref(ctx, y))
    elif fault == "what":
        bad = pick(rng, ["zz", "", "reference", "representation", 1,
                         "moving frame"])
        name = pick(rng, ["transform_linear_velocity",
                          "transform_angular_velocity"])
        run(False, arr[..., :3], ValueError, fault, timestamps=ts, what=bad,
            src=a.obj)
    elif fault == "dim":
        run(False, arr, ValueError, fault, dim="cartesian_axis")
        da = xr.DataArray(arr, {"time": ts}, ("time",) + tuple(
            "m%d" % i for i in range(len(mid))) + ("c",))
        ok(ctx, getattr(rbm, name), da, into=b.obj, outof=a.obj, dim="c",
           timestamps="time", **kw)
        k = dict(kw, into=b.obj, outof=a.obj)
        no(ctx, st, ValueError, fault, getattr(rbm, name), da, dim="c",
           axis=-1, **k)
        no(ctx, st, BAD + (KeyError,), fault, getattr(rbm, name), da,
           dim="zz", **k)
        no(ctx, st, ValueError, "same-axis", getattr(rbm, name), da,
           dim="c", timestamps="c", **k)
    elif fault == "outof":
        da = xr.DataArray(arr, {"time": ts}, ("time",) + tuple(
            "m%d" % i for i in range(len(mid))) + ("c",), attrs={
                "reference": "x"})
        no(ctx, st, ValueError, fault, getattr(rbm, name), da, dim="c",
           into=b.obj, **kw)
        no(ctx, st, ValueError, fault, getattr(rbm, name), arr, into=b.obj,
           **kw)
        attr = kw.get("what", "representation_frame" if name ==
                      "transform_vectors" else "reference_frame")
        da.attrs[attr] = "nowhere"
        no(ctx, st, ValueError, fault, getattr(rbm, name), da, dim="c",
           into=b.obj, **kw)
        no(ctx, st, (TypeError, ValueError), "missing-into",
           getattr(rbm, name), arr, into=None, outof=a.obj, **kw)
    elif fault == "da-timestamps":
        da = xr.DataArray(arr, {"time": ts}, ("time",) + tuple(
            "m%d" % i for i in range(len(mid))) + ("c",))
        k = dict(kw, into=b.obj, outof=a.obj, dim="c")
        no(ctx, st, BAD + (KeyError,), fault, getattr(rbm, name), da,
           timestamps="zz", **k)
        no(ctx, st, (ValueError, TypeError), fault, getattr(rbm, name),
           da.drop_vars("time"), timestamps="time", **k)
        no(ctx, st, (NotImplementedError, ValueError, TypeError), fault,
           getattr(rbm, name), da, timestamps=ts, **k)
    elif fault in ("across", "static-across"):
        # an untimed array of several rows has no meaning across a moving frame
        m = rbm.ReferenceFrame("mv", parent=b.obj, timestamps=ts,
                               translation=G.vec(rng, n, 1.0))
        if fault == "across" and name in ("transform_points",
                                          "transform_vectors"):
            k = int(pick(rng, [2, 3, n + 1, 2 * n]))
            x = rng.standard_normal((k, 3))
            st = State(fr + far)
            if k != n:
                no(ctx, st, ValueError, fault, getattr(rbm, name), x, into=m,
                   outof=b.obj)
        m.parent = None
    else:
        name = "transform_linear_velocity"
        # (IndexError: the frames may share too few samples with the array)
        no(ctx, st, (TypeError,) + BAD, fault,
           rbm.transform_linear_velocity, arr[..., :3], into=b.obj,
           outof=a.obj, what="reference_frame", timestamps=ts)
        no(ctx, st, BAD, fault,
           rbm.transform_linear_velocity, arr[..., :3], into=b.obj,
           outof=a.obj, what="reference_frame", timestamps=ts,
           moving_frame="nowhere")
        no(ctx, st, (TypeError,) + BAD, fault,
           a.obj.transform_linear_velocity, arr[..., :3], b.obj,
           what="moving_frame", reference_frame=3, timestamps=ts)
        no(ctx, st, Exception, "other-tree",
           rbm.transform_linear_velocity, arr[..., :3], into=b.obj,
           outof=a.obj, what="reference_frame", timestamps=ts,
           moving_frame=pick(rng, far).obj)
    ctx.nontrivial(fault, name, method, clock.kind, len(mid))
    ctx.describe(fault=fault, fn=name, method=method)


@prop.scenario(3)
def functions(ctx):
    """Stateless functions: quaternions, Euler angles, coordinates, fits."""
    rng = ctx.rng
    fr, far, clock = world(ctx, ("static",))
    st = State(fr + far)
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(2, 6, nd - 1))
    ax = int(rng.integers(nd))

    def arr(width, shape=shape, ax=ax):
        return np.moveaxis(rng.standard_normal(shape + (width,)), -1, ax)

    bad4 = int(pick(rng, [1, 2, 3, 5, 6, 7, 8, 12]))
    bad3 = int(pick(rng, [1, 2, 4, 5, 6]))
    neg = ax - nd if rng.random() < 0.5 else ax
    fault = pick(rng, ["qaxis", "qmul", "rotate", "qinterp", "euler-shape",
                       "euler-args", "euler-order", "coordinates",
                       "systems", "fit-width", "fit-shape", "accessor",
                       "estimate"])
    if fault == "qaxis":
        good, bad = arr(4), arr(bad4)
        ok(ctx, rbm.qinv, good, qaxis=neg)
        no(ctx, st, ValueError, fault, rbm.qinv, bad, qaxis=neg)
        ok(ctx, rbm.qmul, good, good, qaxis=neg)
        no(ctx, st, ValueError, fault, rbm.qmul, bad, bad, qaxis=neg)
        no(ctx, st, ValueError, fault, rbm.qmul, good, bad, qaxis=neg)
        if nd > 1:
            ok(ctx, rbm.qmean, good, qaxis=neg)
            no(ctx, st, ValueError, fault, rbm.qmean, bad, qaxis=neg)
            no(ctx, st, BAD, "axis-range", rbm.qmean, good,
               axis=pick(rng, [nd - 1, -nd, (0, nd)]), qaxis=-1 if
               good.shape[-1] == 4 else neg)
    elif fault == "qmul":
        q = arr(4, ax=nd - 1)
        no(ctx, st, ValueError, fault, rbm.qmul, q)
        no(ctx, st, ValueError, fault, rbm.qmul)
        x = [q, as_quat_array(q)]
        if rng.random() < 0.5:
            x = x[::-1]
        if rng.random() < 0.5:
            x = [q] + x
        no(ctx, st, ValueError, fault, rbm.qmul, *x)
        no(ctx, st, ValueError, fault, rbm.qmul,
           rng.standard_normal((3, 4)), rng.standard_normal((2, 4)))
    elif fault == "rotate":
        n = int(rng.integers(2, 6))
        q, v = rng.standard_normal((n, 4)), rng.standard_normal((n, 3))
        ok(ctx, rbm.rotate_vectors, q, v)
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, q,
           rng.standard_normal((n, bad3)))
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, q,
           rng.standard_normal((n + 1, 3)))
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, q, v[0])
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, q, v[None])
        no(ctx, st, ValueError, fault, rbm.rotate_vectors,
           rng.standard_normal((n, bad4)), v)
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, as_quat_array(q),
           rng.standard_normal((n, bad3)))
        no(ctx, st, ValueError, fault, rbm.rotate_vectors, q[0],
           rng.standard_normal((n + 4, bad3 if bad3 != 3 else 4)))
    elif fault == "qinterp":
        n = int(rng.integers(4, 9))
        q = G.walk_quat(rng, n)
        ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
        ok(ctx, rbm.qinterp, q, ts, ts[1:-1])
        no(ctx, st, ValueError, fault, rbm.qinterp,
           rng.standard_normal((n, bad4)), ts, ts[1:-1])
        no(ctx, st, (ValueError, IndexError, RuntimeError), fault,
           rbm.qinterp, q, ts[:-1], ts[1:-1])
        no(ctx, st, BAD, "axis-range", rbm.qinterp, q, ts, ts, qaxis=2)
    elif fault == "euler-shape":
        rpy = arr(3)
        ok(ctx, rbm.from_euler_angles, rpy, axis=neg)
        no(ctx, st, BAD, fault, rbm.from_euler_angles, arr(bad3), axis=neg)
        x = rng.standard_normal(3)
        y = rng.standard_normal(int(pick(rng, [1, 2, 4])))
        nm = rng.permutation(["roll", "pitch", "yaw"])
        no(ctx, st, ValueError, fault, rbm.from_euler_angles,
           **{nm[0]: x, nm[1]: y})
        no(ctx, st, ValueError, fault, rbm.from_euler_angles,
           **{nm[0]: x, nm[1]: 1.0})
        ok(ctx, rbm.from_euler_angles, **{nm[0]: x, nm[1]: -x})
    elif fault == "euler-args":
        no(ctx, st, ValueError, fault, rbm.from_euler_angles)
        no(ctx, st, ValueError, fault, rbm.from_euler_angles, arr(3),
           **{pick(rng, ["roll", "pitch", "yaw"]): pick(rng, [0.0, 1.0])})
        nm = rng.permutation(["roll", "pitch", "yaw"])[: rng.integers(1, 4)]
        no(ctx, st, ValueError, fault, rbm.from_euler_angles, arr(3),
           **{str(k): pick(rng, [0.0, 1.0]) for k in nm})
    elif fault == "euler-order":
        bad = pick(rng, ["", "r", "rp", "rrr", "xyz", "rpyr", "RPY", "rpz",
                         "ryy", "pyp", "rpy ", "r p y"])
        no(ctx, st, ValueError, fault, rbm.from_euler_angles,
           rng.standard_normal(3), order=bad)
        no(ctx, st, ValueError, fault, rbm.from_euler_angles, roll=1.0,
           yaw=0.5, order=bad)
    elif fault == "coordinates":
        f, w = pick(rng, [("cartesian_to_polar", 2), ("polar_to_cartesian", 2),
                          ("cartesian_to_spherical", 3),
                          ("spherical_to_cartesian", 3)])
        bad = int(pick(rng, [k for k in (1, 2, 3, 4, 6) if k != w]))
        ok(ctx, getattr(rbm, f), arr(w), axis=neg)
        no(ctx, st, ValueError, fault, getattr(rbm, f), arr(bad), axis=neg)
        no(ctx, st, BAD, "axis-range", getattr(rbm, f), arr(w), axis=nd + 1)
        o, i = f.split("_to_")
        no(ctx, st, ValueError, fault, rbm.transform_coordinates, arr(bad),
           outof=o, into=i, axis=neg)
    elif fault == "systems":
        names = ["cartesian", "polar", "spherical"]
        pairs = [("polar", "spherical"), ("spherical", "polar"),
                 ("cartesian", "zz"), ("zz", "cartesian"), ("", "polar"),
                 ("Cartesian", "polar"), ("cartesian", ""),
                 ("cartesian", None), ("cylindrical", "cartesian")]
        o, i = pick(rng, pairs)
        x = rng.standard_normal((4, int(rng.integers(2, 4))))
        no(ctx, st, ValueError, fault, rbm.transform_coordinates, x, outof=o,
           into=i)
        no(ctx, st, ValueError, fault, rbm.transform_coordinates, x,
           into=pick(rng, names))
        da = xr.DataArray(x, dims=("n", "c"), attrs={"coordinate_system": o})
        no(ctx, st, ValueError, fault, rbm.transform_coordinates, da, dim="c",
           into=i)
        ctx.check(da.attrs == {"coordinate_system": o}, "unchanged", "attrs")
        da.attrs.clear()
        no(ctx, st, ValueError, fault, rbm.transform_coordinates, da, dim="c",
           into="polar")
        no(ctx, st, ValueError, "dim", rbm.transform_coordinates, x, dim="c",
           outof="cartesian", into="polar")
    elif fault in ("fit-width", "fit-shape"):
        f = pick(rng, [rbm.best_fit_rotation, rbm.best_fit_transform,
                       rbm.iterative_closest_point,
                       rbm.shortest_arc_rotation])
        n = int(rng.integers(4, 9))
        g = rng.standard_normal((n, 3))
        ok(ctx, f, g, g * 1.1)
        if fault == "fit-width":
            b = rng.standard_normal((n, bad3))
            for p, q in ((b, b), (g, b), (b, g)):
                if f is rbm.shortest_arc_rotation and p is not q and bad3 == 1:
                    continue
                no(ctx, st, ValueError, fault, f, p, q)
        else:
            if f is not rbm.iterative_closest_point:
                no(ctx, st, ValueError, fault, f, g,
                   rng.standard_normal((n + 2, 3)))
            if f is not rbm.shortest_arc_rotation:
                no(ctx, st, ValueError, fault, f, g[0], g[0])
    elif fault == "accessor":
        n = 6
        ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
        da = xr.DataArray(G.walk_quat(rng, n), {"time": ts},
                          ("time", "quaternion_axis"))
        p = xr.DataArray(rng.standard_normal((n, 3)), {"time": ts},
                         ("time", "c"))
        ok(ctx, da.rbm.qinterp, time=ts[1:-1])
        ok(ctx, da.rbm.qinv)
        no(ctx, st, ValueError, fault, da.rbm.qinterp, zz=ts[1:-1])
        no(ctx, st, ValueError, fault, da.rbm.qinterp, time=ts[1:-1],
           qdim="zz")
        no(ctx, st, ValueError, fault, da.rbm.qinv, "zz")
        no(ctx, st, ValueError, fault, p.rbm.qinv, "c")
        no(ctx, st, ValueError, fault, p.rbm.qinterp, time=ts[1:-1], qdim="c")
        no(ctx, st, (NotImplementedError, ValueError), fault, da.rbm.qinterp,
           time=ts[1:-1], quaternion_axis=[0])
        no(ctx, st, (NotImplementedError, ValueError), fault, da.rbm.qinterp,
           time=np.stack([ts, ts]))
        no(ctx, st, (NotImplementedError, ValueError), fault, da.rbm.qinterp)
    else:
        n = int(rng.integers(6, 12))
        ts = clock.make(0.0, G.grid_steps(rng, n - 1, clock))
        p, q = rng.standard_normal((n, 3)), G.walk_quat(rng, n)
        EL, EA = rbm.estimate_linear_velocity, rbm.estimate_angular_velocity
        for f, x in ((EL, p), (EA, q)):
            ok(ctx, f, x, timestamps=ts)
            no(ctx, st, BAD, fault, f, x, timestamps=ts[:-1])
            no(ctx, st, BAD, fault, f, x, timestamps=clock.make(
                0.0, np.ones(n)))
            no(ctx, st, ValueError, "dim", f, x, timestamps=ts, dim="c")
            da = xr.DataArray(x, {"time": ts}, ("time", "c"))
            ok(ctx, f, da, dim="c", timestamps="time")
            no(ctx, st, ValueError, "dim", f, da, dim="c", axis=1)
            no(ctx, st, BAD + (KeyError,), "dim", f, da, dim="zz")
            no(ctx, st, BAD + (KeyError,), "dim", f, da, dim="c",
               timestamps="zz")
            no(ctx, st, ValueError, "same-axis", f, da, dim="c",
               timestamps="c")
            no(ctx, st, ValueError, "same-axis", f, x, axis=0, time_axis=0,
               timestamps=ts)
        no(ctx, st, BAD, fault, EA, rng.standard_normal(
            (n, bad4)), timestamps=ts)
    ctx.nontrivial(fault, nd, ax)
    ctx.describe(fault=fault, nd=nd, ax=ax)


@prop.scenario(1)
def others(ctx):
    """Formats, example data, plots."""
    import tempfile
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from rigid_body_motion import plot as P
    from rigid_body_motion.io import load_optitrack

    rng = ctx.rng
    fr, far, clock = world(ctx)
    st = State(fr + far)
    fault = pick(rng, ["example", "points", "vectors", "frame-plot",
                       "format"])
    if fault == "example":
        no(ctx, st, KeyError, fault, lambda k: rbm.example_data[k],
           pick(rng, ["zz", "", "Head", 3]), _name="example_data")
    elif fault == "format":
        from . import c18

        with tempfile.TemporaryDirectory() as d:
            no(ctx, st, (OSError, ValueError), fault, load_optitrack,
               d + "/nothing.csv")
            c18.write(ctx, d + "/take.csv")
            ok(ctx, load_optitrack, d + "/take.csv")
            no(ctx, st, ValueError, fault, load_optitrack, d + "/take.csv",
               pick(rng, ["zz", "", "Pandas", "csv", "array"]))
    else:
        fig = plt.figure()
        ax = fig.add_subplot(projection="3d")
        n = int(rng.integers(2, 6))
        try:
            bad = pick(rng, [np.ones((n, 4)), np.ones((n, 2)), np.ones(4),
                             np.ones(2), np.ones((n, n, 3)), np.ones(()),
                             np.ones((1, n, 3)), np.ones((n, 3, 1)),
                             np.ones((3, 2 * n)), np.ones(3 * n)])
            if fault == "points":
                ok(ctx, P.plot_points, np.ones((n, 3)), ax=ax)
                no(ctx, st, BAD, fault, P.plot_points, bad, ax=ax)
            elif fault == "vectors":
                ok(ctx, P.plot_vectors, np.ones((n, 3)), ax=ax)
                no(ctx, st, BAD, fault, P.plot_vectors, bad, ax=ax)
                no(ctx, st, BAD, fault, P.plot_vectors, np.ones((n, 3)),
                   base=pick(rng, [
                       np.ones((n + 1, 3)), np.ones((n, 4)), np.ones(3 * n),
                       np.ones((3, 2 * n)), np.ones((n, 3, 1)),
                       np.ones((1, n, 3)), np.ones(3), np.ones((1, 3))]),
                   ax=ax)
            else:
                mv = [m for m in fr if m.ts is not None]
                for m in mv:
                    no(ctx, st, (NotImplementedError, ValueError), fault,
                       P.plot_reference_frame, m.obj, m.parent.obj, ax=ax)
                no(ctx, st, ValueError, "unknown", P.plot_reference_frame,
                   "nowhere", ax=ax)
                no(ctx, st, Exception, "other-tree", P.plot_reference_frame,
                   pick(rng, fr).obj, far[0].obj, ax=ax)
        finally:
            plt.close(fig)
    ctx.nontrivial(fault, clock.kind)
    ctx.describe(fault=fault)

"""C08: registry and tree follow the registration history (model-based)."""
import contextlib
import gc
import io

import numpy as np
import rigid_body_motion as rbm

from .. import gen as G, oracle as O
from ..core import Prop

prop = Prop(
    "C08",
    "registration histories",
    "random histories of register_frame / ReferenceFrame / register / "
    "deregister / update=True / clear_registry / object drops and deliberately "
    "failing calls over a small pool of re-used names; after every operation "
    "the observed name resolution, parent/children links and transforms "
    "between live frames are compared with a reference model (dictionary + "
    "forest). Non-trivial: history with at least one successful mutation; "
    "signature = the sequence of (operation, outcome) of the last 4 steps.",
    quick=10000, thorough=200000,
    assumptions=["obj.deregister() is only called on the frame registered "
                 "under its name (or when the name is free)"],
)
prop.require("monitor:resolve-known", "monitor:resolve-unknown",
             "monitor:tree-links", "monitor:transform", "op:update-replaced",
             "op:fail-duplicate", "op:fail-parent", "op:fail-malformed",
             "op:clear", "op:reregister-same", "op:drop-twin",
             "monitor:other-tree", "op:deregister", "op:revive",
             "monitor:render")

NAMES = ["a", "b", "c", "d", "world"]


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.reg = {}  # name -> model
        self.live = []  # models with real objects

    def make_model(self, name, parent, t, q, obj):
        m = O.Frame(name, parent, t, q, None, False, obj)
        self.live.append(m)
        return m

    def pick(self):
        return self.live[self.rng.integers(len(self.live))] if self.live \
            else None

    def parent_arg(self, p):
        if p is None:
            return None
        if self.reg.get(p.name) is p and self.rng.random() < 0.5:
            return p.name
        return p.obj

    def transform_kwargs(self, p):
        """(kwargs, effective t, effective q)."""
        rng = self.rng
        if p is None:
            return {}, None, None
        t, q = np.zeros(3), np.array([1.0, 0, 0, 0])
        kw = {}
        if rng.random() < 0.8:
            kw["translation"] = t = G.vec(rng, (), 1.0)
        if rng.random() < 0.8:
            kw["rotation"] = q = G.quat(rng)
        if rng.random() < 0.3:
            kw["inverse"] = True
            t, q = G.invert(t, q)
        return kw, t, q


def replace(w, name, m):
    """Model of registering ``m`` under ``name``."""
    old = w.reg.get(name)
    if old is not None and old is not m:
        old.parent = None
        w.ctx.events["op:update-replaced"] += 1
    w.reg[name] = m


def op_register_frame(w):
    ctx, rng = w.ctx, w.rng
    name = NAMES[rng.integers(len(NAMES))]
    p = w.pick() if rng.random() < 0.75 else None
    update = bool(rng.random() < 0.45)
    kw, t, q = w.transform_kwargs(p)
    if update or rng.random() < 0.3:
        kw["update"] = update
    pa = w.parent_arg(p)
    if name in w.reg and not update:
        ctx.rejects(ValueError, rbm.register_frame, name, parent=pa, **kw)
        ctx.events["op:fail-duplicate"] += 1
        return "dup"
    ctx.call(rbm.register_frame, name, parent=pa, **kw)
    old = w.reg.get(name)
    m = w.make_model(name, p, t, q, None)
    replace(w, name, m)
    m.obj = G.registered_obj(rbm, name)
    if old is not None:
        ctx.check(m.obj is not old.obj, "resolve-known",
                  "name still resolves to the replaced frame")
    ctx.events["op:register"] += 1
    return "update" if old else "new"


def op_construct(w):
    name = NAMES[w.rng.integers(len(NAMES))] if w.rng.random() < 0.8 else None
    p = w.pick() if w.rng.random() < 0.75 else None
    kw, t, q = w.transform_kwargs(p)
    obj = w.ctx.call(rbm.ReferenceFrame, name, parent=w.parent_arg(p), **kw)
    w.make_model(name, p, t, q, obj)
    return "ok"


def op_register_obj(w):
    ctx = w.ctx
    m = w.pick()
    if m is None:
        return "skip"
    update = bool(w.rng.random() < 0.5)
    if m.name is None:
        ctx.rejects(ValueError, m.obj.register, update=update)
        ctx.events["op:fail-noname"] += 1
        return "noname"
    cur = w.reg.get(m.name)
    if cur is not None and not update:
        ctx.rejects(ValueError, m.obj.register)
        ctx.events["op:fail-duplicate"] += 1
        return "dup"
    ctx.call(m.obj.register, **({"update": True} if update else {}))
    if cur is m:
        ctx.events["op:reregister-same"] += 1
    elif cur is None:
        ctx.events["op:revive"] += 1
    replace(w, m.name, m)
    return "same" if cur is m else "ok"


def op_deregister(w):
    ctx, rng = w.ctx, w.rng
    name = NAMES[rng.integers(len(NAMES))]
    if name not in w.reg:
        ctx.rejects((ValueError, KeyError), rbm.deregister_frame, name)
        ctx.events["op:fail-missing"] += 1
        return "missing"
    m = w.reg.pop(name)
    if rng.random() < 0.5:
        ctx.call(rbm.deregister_frame, name)
    else:
        ctx.call(m.obj.deregister)
    ctx.events["op:deregister"] += 1
    return "ok"


def op_clear(w):
    w.ctx.call(rbm.clear_registry)
    w.reg.clear()
    w.ctx.events["op:clear"] += 1
    return "ok"


def op_fail(w):
    """Calls that must fail and change nothing."""
    ctx, rng = w.ctx, w.rng
    p = w.pick()
    name = NAMES[rng.integers(len(NAMES))]
    update = bool(rng.random() < 0.5)
    k = rng.integers(7)
    ctor = bool(rng.random() < 0.5)

    def go(parent, exc=ValueError, **kw):
        if ctor:
            ctx.rejects(exc, rbm.ReferenceFrame, name, parent=parent, **kw)
        else:
            ctx.rejects(exc, rbm.register_frame, name, parent=parent,
                        update=update, **kw)

    if k == 0:
        free = [n for n in NAMES + ["nowhere"] if n not in w.reg]
        go(free[rng.integers(len(free))])
        ctx.events["op:fail-parent"] += 1
        return "parent"
    if k == 1:
        go([3, 1.5, ["x"]][rng.integers(3)], TypeError)
        ctx.events["op:fail-parent"] += 1
        return "parent-type"
    if k == 2:
        go(None, translation=np.zeros(3))
        ctx.events["op:fail-malformed"] += 1
        return "root-transform"
    if p is None:
        return "skip"
    pa = w.parent_arg(p)
    if k == 3:
        go(pa, translation=np.zeros(4))
    elif k == 4:
        go(pa, rotation=np.zeros((2, 4)))
    elif k == 5:
        go(pa, discrete=True)
    else:
        go(pa, translation=np.zeros((3, 3)), timestamps=np.arange(4.0))
    ctx.events["op:fail-malformed"] += 1
    return "malformed%d" % k


def op_drop_twin(w):
    """An unregistered, unattached frame with a registered frame's name is
    garbage collected; the registration must survive."""
    name = NAMES[w.rng.integers(len(NAMES))]
    twin = w.ctx.call(rbm.ReferenceFrame, name)
    del twin
    gc.collect(0)
    w.ctx.events["op:drop-twin"] += 1
    return "ok"


OPS = [(op_register_frame, 5), (op_construct, 3), (op_register_obj, 3),
       (op_deregister, 2), (op_clear, 0.5), (op_fail, 3), (op_drop_twin, 1)]


def observe(w):
    ctx, rng = w.ctx, w.rng
    for n in NAMES:
        if n in w.reg:
            obj = G.registered_obj(rbm, n)
            ctx.check(obj is w.reg[n].obj, "resolve-known",
                      f"'{n}' resolves to another frame")
        else:
            try:
                rbm.lookup_transform(n, n)
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, "resolve-unknown", f"'{n}' should be unknown")
    for m in w.live:
        want = m.parent.obj if m.parent is not None else None
        ctx.check(m.obj.parent is want, "tree-links",
                  f"parent of {m.name} is {m.obj.parent}, expected {want}")
        kids = {id(c.obj) for c in w.live if c.parent is m}
        have = {id(c) for c in m.obj.children}
        ctx.check(kids == have, "tree-links",
                  f"children of {m.name}: {m.obj.children}",
                  want=[c.name for c in w.live if c.parent is m])
    for _ in range(3):
        a, b = w.pick(), w.pick()
        if a is None:
            return
        ra = a.name if w.reg.get(a.name) is a and rng.random() < 0.5 else a.obj
        rb = b.name if w.reg.get(b.name) is b and rng.random() < 0.5 else b.obj
        if O.path(a, b) is None:
            ctx.rejects(Exception, rbm.lookup_transform, ra, rb)
            ctx.events["monitor:other-tree"] += 1
            continue
        t, R, _ = O.lookup(a, b)
        gt, gq = ctx.call(rbm.lookup_transform, ra, rb)
        ctx.close(gt, t, "transform", 1e-8)
        ctx.close(O.q2R(gq), R, "transform", 1e-8)
    if rng.random() < 0.2:
        m = w.pick()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ctx.call(rbm.render_tree, m.obj)
        sub = [x for x in w.live if any(y is m for y in x.ancestors())]
        lines = buf.getvalue().splitlines()
        ctx.check(len(lines) == len(sub) and all(
            str(x.name) in "\n".join(lines) for x in sub), "render",
            got=lines)


@prop.scenario(1)
def histories(ctx):
    rng = ctx.rng
    w = World(ctx)
    ops, ps = zip(*OPS)
    ps = np.array(ps) / sum(ps)
    log = []
    for _ in range(int(rng.integers(8, 25))):
        op = ops[rng.choice(len(ops), p=ps)]
        out = op(w)
        log.append((op.__name__[3:], out))
        ctx.desc["history"] = str(log[-12:])
        observe(w)
        ctx.nontrivial(*log[-4:])
        if len(w.live) > 14:
            break

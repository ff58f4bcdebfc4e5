"""C22: Concurrent read-only queries return sequential results."""
import os
import sys
import threading
import time

import rigid_body_motion as rbm

from .. import gen as G, queries as Q
from ..core import Prop, REPO, Violation
from .c07 import build_world

LIB = os.path.join(os.path.realpath(REPO), "rigid_body_motion") + os.sep
prop = Prop(
    "C22",
    "concurrent queries",
    "2-6 threads executing batteries of random queries (lookups, array and "
    "velocity transforms, estimators, quaternion functions; shared query "
    "objects and shared frames) under two schedulers: a controlled one which "
    "lets exactly one thread run and switches at randomly chosen executed "
    "source lines of the library (seeded, replayable), and free running "
    "threads with a 1 us switch interval and random yields. Every result is "
    "compared with that of the same call made sequentially before and after. "
    "Signature = (mode, threads, hash of the observed switch points).",
    quick=1040, thorough=7000,
    assumptions=["preemption inside C extensions happens only where they "
                 "release the GIL"],
)
prop.require("monitor:concurrent-result", "monitor:concurrent-exception",
             "monitor:still-sequential", "switches:controlled",
             "threads-overlapped")


class Controlled:
    """One thread at a time; switches at random library lines."""

    def __init__(self, rnd, n, p):
        self.rnd, self.n, self.p = rnd, n, p
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.switches = []
        self.current = None
        self.stuck = 0

    def local(self, me):
        def trace(frame, event, arg):
            if event == "line" and self.rnd.random() < self.p:
                self.yield_from(me, frame)
            return trace

        return trace

    def tracer(self, me):
        loc = self.local(me)

        def trace(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(LIB):
                return loc
            return None

        return trace

    def yield_from(self, me, frame):
        others = sorted(self.alive - {me})
        if not others or self.current != me:
            return
        o = others[self.rnd.randrange(len(others))]
        self.switches.append((me, o, frame.f_code.co_name, frame.f_lineno))
        self.current = o
        self.sems[o].release()
        self.wait(me)

    def wait(self, me):
        # a thread blocked in a lock of the code under test must not block
        # the schedule forever: then everybody runs freely
        if not self.sems[me].acquire(timeout=1.0):
            self.stuck += 1
        self.current = me

    def begin(self, me):
        self.wait(me)
        sys.settrace(self.tracer(me))

    def end(self, me):
        sys.settrace(None)
        self.alive.discard(me)
        if self.alive:
            o = sorted(self.alive)[self.rnd.randrange(len(self.alive))]
            self.current = o
            self.sems[o].release()

    def start(self):
        self.current = 0
        self.sems[0].release()


class Free:
    """Real preemption, provoked by tiny switch intervals and yields."""

    def __init__(self, rnd, n, p):
        self.rnd, self.p = rnd, p
        self.barrier = threading.Barrier(n)
        self.last = None
        self.switches = []
        self.stuck = 0

    def local(self, me):
        def trace(frame, event, arg):
            if event == "line":
                if self.last != me:
                    self.switches.append(
                        (self.last, me, frame.f_code.co_name, frame.f_lineno))
                    self.last = me
                if self.rnd.random() < self.p:
                    time.sleep(0)
            return trace

        return trace

    def tracer(self, me):
        loc = self.local(me)

        def trace(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(LIB):
                return loc
            return None

        return trace

    def begin(self, me):
        try:
            self.barrier.wait(20)
        except threading.BrokenBarrierError:
            pass
        sys.settrace(self.tracer(me))

    def end(self, me):
        sys.settrace(None)

    def start(self):
        pass


def battery(ctx):
    rng = ctx.rng
    if rng.random() < 0.75:
        frames, clock, _ = build_world(ctx)
        qs = Q.frame_queries(ctx, frames, clock, int(rng.integers(3, 9)))
        if rng.random() < 0.4:
            qs += Q.pure_queries(ctx, 3)
    else:
        qs = Q.pure_queries(ctx, int(rng.integers(3, 9)))
    return qs


def go(ctx, mode):
    rng = ctx.rng
    qs = battery(ctx)
    base = [Q.flatten(ctx.call(q, _name=q.name)) for q in qs]
    nt = int(rng.integers(2, 7))
    plans = []
    for _ in range(nt):
        k = int(rng.integers(2, 8))
        plans.append([int(i) for i in rng.integers(0, len(qs), k)])
    if rng.random() < 0.3:  # everybody the same query
        i = int(rng.integers(len(qs)))
        plans = [[i] * 3 for _ in range(nt)]
    p = float(rng.choice([0.02, 0.1, 0.3]))
    sched = (Controlled if mode == "controlled" else Free)(
        ctx.pyrandom, nt, p)
    results = [[] for _ in range(nt)]
    running, overlap = set(), [0]

    def work(me):
        sched.begin(me)
        running.add(me)
        try:
            for i in plans[me]:
                if len(running) > 1:
                    overlap[0] += 1
                try:
                    results[me].append((i, Q.flatten(qs[i]()), None))
                except Exception as e:  # judged below
                    results[me].append((i, None, e))
        finally:
            running.discard(me)
            sched.end(me)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if mode == "free" else 0.005)
    threads = [threading.Thread(target=work, args=(m,), daemon=True)
               for m in range(nt)]
    try:
        for t in threads:
            t.start()
        sched.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in threads):
        raise Violation("concurrent-hang", "queries do not terminate when "
                        "run concurrently",
                        {"alive": str([t.name for t in threads
                                       if t.is_alive()])})
    trail = sched.switches[-6:]
    for me in range(nt):
        ctx.check(len(results[me]) == len(plans[me]), "concurrent-exception",
                  "thread died")
        for i, flat, exc in results[me]:
            ctx.check(exc is None, "concurrent-exception",
                      f"{qs[i].name} raised {type(exc).__name__}: {exc} only "
                      f"when run concurrently", query=qs[i].name,
                      switches=trail)
            d = Q.same(base[i], flat)
            ctx.check(d is None, "concurrent-result",
                      f"{qs[i].name}: {d} differs from the sequential result",
                      query=qs[i].name, switches=trail)
    for i, q in enumerate(qs):
        d = Q.same(base[i], Q.flatten(ctx.call(q, _name=q.name)))
        ctx.check(d is None, "still-sequential",
                  f"{q.name}: {d} changed after concurrent use")
    ctx.events["switches:" + mode] += len(sched.switches)
    ctx.events["threads-overlapped"] += overlap[0]
    ctx.events["lines-switched-at:" + mode] += len(
        {s[2:] for s in sched.switches})
    ctx.events["scheduler-timeouts"] += sched.stuck
    ctx.nontrivial(mode, nt, tuple(sched.switches)
                   if mode == "controlled" else len(sched.switches))
    ctx.describe(threads=nt, switches=len(sched.switches),
                 queries=[q.name for q in qs])


@prop.scenario(3)
def controlled(ctx):
    go(ctx, "controlled")


@prop.scenario(2)
def free(ctx):
    go(ctx, "free")

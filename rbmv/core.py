"""Runner, verdicts and evidence for the runtime-monitoring checks.

A check drives the real ``rigid_body_motion`` package (imported from /repo's
working tree) with generated workloads.  Every workload case is a function
``scenario(ctx)``; calls into the library go through ``ctx.call`` which records
the call/return event at the public API boundary, and monitors (``ctx.check``,
``ctx.close`` ...) compare the recorded outcome with an independent oracle.

Verdicts are three-valued:
  exit 0  held on every execution observed
  exit 1  violated; ``VIOLATION property=<id> replay=<path>`` on stdout
  exit 2  inconclusive (watchdog, or a deciding monitor was not reached)
"""

import argparse
import collections
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RBMV_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_TIMEOUT = 120
RUN_TIMEOUT = {"quick": 780, "thorough": 7200}


class Violation(Exception):
    """The monitored execution refutes the property."""

    def __init__(self, mechanism, message, details=None):
        super().__init__(f"{mechanism}: {message}")
        self.mechanism = mechanism
        self.message = message
        self.details = details or {}


class CaseTimeout(BaseException):
    """Wall-clock watchdog for a single case fired (inconclusive)."""


def brief(obj, limit=700):
    """Short printable rendering of a value for samples and replay files."""
    try:
        import numpy as np

        if isinstance(obj, np.ndarray):
            with np.printoptions(precision=6, threshold=40, edgeitems=2):
                s = f"array{obj.shape}:{obj.dtype}:{obj!r}"
        else:
            s = repr(obj)
    except Exception as e:  # pragma: no cover
        s = f"<unprintable {type(obj).__name__}: {e}>"
    s = " ".join(s.split())
    return s if len(s) <= limit else s[:limit] + "..."


class Ctx:
    """Context of one monitored execution."""

    def __init__(self, prop, scenario, case, seed, tier):
        import numpy as np

        self.prop, self.scenario, self.case = prop, scenario, case
        self.seed, self.tier = seed, tier
        key = [
            int(seed) & 0xFFFFFFFF,
            zlib.crc32(prop.encode()),
            zlib.crc32(scenario.encode()),
            int(case),
        ]
        self.rng = np.random.Generator(np.random.PCG64(key))
        self.pyrandom = random.Random(repr(key))
        self.events = collections.Counter()
        self.sigs = set()
        self.trace = []  # recorded API events (call, outcome)
        self.desc = {}

    # -- event recording ---------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """Call into the library on valid input; an exception refutes."""
        name = kwargs.pop("_name", None) or getattr(fn, "__qualname__", str(fn))
        self.events["call:" + name.split(".")[-1]] += 1
        if len(self.trace) < 60:
            self.trace.append(
                (name, brief(args, 400), brief(kwargs, 300))
            )
        try:
            return fn(*args, **kwargs)
        except (CaseTimeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            raise Violation(
                f"exception:{name}",
                f"{name} raised {type(e).__name__}: {e} on valid input",
                {
                    "args": brief(args, 1500),
                    "kwargs": brief(kwargs, 1000),
                    "traceback": traceback.format_exc()[-2500:],
                },
            )

    def rejects(self, exc, fn, *args, **kwargs):
        """Call with malformed input; must raise one of ``exc``."""
        name = kwargs.pop("_name", None) or getattr(fn, "__qualname__", str(fn))
        what = kwargs.pop("_what", name)
        self.events["reject:" + name.split(".")[-1]] += 1
        if len(self.trace) < 60:
            self.trace.append((name, brief(args, 400), brief(kwargs, 300)))
        try:
            out = fn(*args, **kwargs)
        except (CaseTimeout, KeyboardInterrupt, MemoryError):
            raise
        except exc as e:
            return e
        except Exception as e:
            raise Violation(
                f"wrong-exception:{what}",
                f"{name} raised {type(e).__name__}({e}) instead of "
                f"{getattr(exc, '__name__', exc)}",
                {"args": brief(args, 1500), "kwargs": brief(kwargs)},
            )
        raise Violation(
            f"accepted:{what}",
            f"{name} accepted malformed input and returned {brief(out, 300)}",
            {"args": brief(args, 1500), "kwargs": brief(kwargs)},
        )

    # -- monitors ----------------------------------------------------------
    def check(self, cond, mechanism, message="", **details):
        self.events["monitor:" + mechanism] += 1
        if not cond:
            raise Violation(
                mechanism,
                message or mechanism,
                {k: brief(v) for k, v in details.items()},
            )

    def close(self, got, want, mechanism, tol=1e-9, message="", **details):
        """Numerical agreement up to ``tol`` (absolute + relative)."""
        import numpy as np

        self.events["monitor:" + mechanism] += 1
        want = np.asarray(want)
        try:
            got_a = np.asarray(got)
            ok = got_a.shape == want.shape
            why = f"shape {got_a.shape} != expected {want.shape}"
            if ok and want.size:
                if want.dtype.kind in "Mm" or got_a.dtype.kind in "Mm":
                    ok = bool(np.all(got_a == want))
                    why = "timestamps differ"
                else:
                    g, w = got_a.astype(float), want.astype(float)
                    nan_ok = bool(np.all(np.isnan(g) == np.isnan(w)))
                    err = np.nanmax(
                        np.abs(g - w) / (1.0 + np.abs(w)), initial=0.0
                    )
                    ok = nan_ok and bool(err <= tol)
                    why = f"max error {err:.3g} > {tol:.3g}, nan match {nan_ok}"
        except Violation:
            raise
        except Exception as e:
            ok, why = False, f"result not comparable: {type(e).__name__}: {e}"
        if not ok:
            raise Violation(
                mechanism,
                f"{message or mechanism}: {why}",
                dict(
                    {k: brief(v) for k, v in details.items()},
                    got=brief(got),
                    expected=brief(want),
                ),
            )

    def same_rotation(self, got, want, mechanism, tol=1e-7, **details):
        """Quaternion arrays (..., 4) describe the same rotations."""
        import numpy as np
        from . import oracle as O

        got = np.asarray(got)
        want = np.asarray(want)
        self.check(
            got.shape == want.shape,
            mechanism,
            f"{mechanism}: shape {got.shape} != expected {want.shape}",
            got=got,
            expected=want,
            **details,
        )
        n = np.linalg.norm(got, axis=-1)
        self.close(n, np.ones_like(n), mechanism, 1e-6, "unit norm", **details)
        self.close(
            O.q2R(got), O.q2R(want), mechanism, tol, quat=got, expected_quat=want,
            **details,
        )

    def nontrivial(self, *sig):
        """Count this execution as non-trivial with a structural signature."""
        self.sigs.add(
            hashlib.blake2b(
                repr((self.scenario,) + sig).encode(), digest_size=8
            ).hexdigest()
        )

    def describe(self, **kw):
        for k, v in kw.items():
            self.desc[k] = brief(v, 300)


class Prop:
    """A property: scenarios and the counters that must be reached."""

    def __init__(self, pid, title, rule, quick, thorough, assumptions=()):
        self.pid, self.title, self.rule = pid, title, rule
        self.cases = {"quick": quick, "thorough": thorough}
        self.scenarios = []  # (name, weight, fn)
        self.required = []  # event-name prefixes which must be > 0
        self.assumptions = list(assumptions)
        self.workers = None

    def scenario(self, weight=1, name=None):
        def deco(fn):
            self.scenarios.append((name or fn.__name__, weight, fn))
            return fn

        return deco

    def require(self, *prefixes):
        self.required.extend(prefixes)

    def plan(self, tier, scale=1.0):
        total = max(1, int(self.cases[tier] * scale))
        w = sum(s[1] for s in self.scenarios)
        plan = []
        for name, weight, _ in self.scenarios:
            n = max(4, int(round(total * weight / w)))
            plan.extend((name, i) for i in range(n))
        return plan

    def fn(self, name):
        for n, _, f in self.scenarios:
            if n == name:
                return f
        raise KeyError(name)


def _alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def quiet():
    """Silence the library's prints (render_tree etc.) and warnings."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy as np

        with np.errstate(all="ignore"):
            yield


def run_case(prop, name, case, seed, tier):
    """Run one case; returns a plain dict."""
    ctx = Ctx(prop.pid, name, case, seed, tier)
    res = {"scenario": name, "case": case, "violation": None, "timeout": False}
    use_alarm = hasattr(signal, "SIGALRM")
    if use_alarm:
        old = signal.signal(signal.SIGALRM, _alarm)
        oldp = signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)  # CPU seconds
        signal.alarm(3 * CASE_TIMEOUT)
    out = io.StringIO()
    try:
        import rigid_body_motion as rbm

        rbm.clear_registry()
        with quiet():
            prop.fn(name)(ctx)
    except CaseTimeout:
        res["timeout"] = True
    except Violation as v:
        res["violation"] = {
            "mechanism": v.mechanism,
            "message": v.message,
            "details": v.details,
        }
    except MemoryError:
        res["timeout"] = True
    except Exception as e:
        # Scenarios never raise by themselves on the unchanged tree: an
        # exception here means a result the monitors could not even consume.
        res["violation"] = {
            "mechanism": "unusable-result",
            "message": f"{type(e).__name__}: {e}",
            "details": {"traceback": traceback.format_exc()[-3000:]},
        }
    finally:
        if use_alarm:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, old)
            signal.signal(signal.SIGPROF, oldp)
        out.close()
    if res["violation"]:
        res["violation"]["trace"] = ctx.trace[-30:]
        res["violation"]["desc"] = ctx.desc
    res["events"] = dict(ctx.events)
    res["sigs"] = list(ctx.sigs)
    res["desc"] = ctx.desc
    res["calls"] = ctx.trace[:6] if case == 0 else None
    return res


_PROP = None


def _chunk(items, seed, tier):
    agg = {
        "events": collections.Counter(),
        "sigs": set(),
        "n": 0,
        "violations": [],
        "timeouts": [],
        "samples": [],
        "per": collections.Counter(),
    }
    for name, case in items:
        r = run_case(_PROP, name, case, seed, tier)
        agg["n"] += 1
        agg["per"][name] += 1
        agg["events"].update(r["events"])
        agg["sigs"].update(r["sigs"])
        if r["timeout"]:
            agg["timeouts"].append((name, case))
        if r["violation"]:
            agg["violations"].append(
                {"scenario": name, "case": case, **r["violation"]}
            )
        if r["calls"] is not None:
            agg["samples"].append(
                {
                    "scenario": name,
                    "case": case,
                    "input": r["desc"],
                    "first_calls": [list(c) for c in r["calls"]],
                }
            )
    return agg


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def match_known(v, known):
    for k in known:
        if v["mechanism"] == k["mechanism"] and (
            "scenario" not in k or k["scenario"] == v["scenario"]
        ):
            return k
    return None


def evidence_path(pid):
    d = os.environ.get("RBMV_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    return d, os.path.join(d, f"{pid}.json")


def main(prop, argv=None):
    global _PROP
    _PROP = prop
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--only")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        r = run_case(prop, rp["scenario"], rp["case"], rp["seed"], rp["tier"])
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["violation"] else 0

    plan = prop.plan(tier, a.scale)
    if a.only:
        plan = [p for p in plan if p[0] == a.only]
    jobs = a.jobs or prop.workers or min(8, os.cpu_count() or 1)
    # interleave scenarios so that every chunk holds a mixture
    random.Random(0).shuffle(plan)
    nchunk = max(1, min(len(plan), jobs * 12))
    chunks = [plan[i::nchunk] for i in range(nchunk)]

    agg = {
        "events": collections.Counter(),
        "sigs": set(),
        "n": 0,
        "violations": [],
        "timeouts": [],
        "samples": [],
        "per": collections.Counter(),
    }
    broken = None

    def merge(x):
        for k in ("events", "per"):
            agg[k].update(x[k])
        agg["sigs"].update(x["sigs"])
        agg["n"] += x["n"]
        for k in ("violations", "timeouts", "samples"):
            agg[k].extend(x[k])

    if jobs == 1:
        for c in chunks:
            merge(_chunk(c, a.seed, tier))
            if time.time() - t0 > RUN_TIMEOUT[tier]:
                broken = "run watchdog"
                break
    else:
        ctxmp = multiprocessing.get_context("fork")
        ex = ProcessPoolExecutor(jobs, mp_context=ctxmp)
        try:
            futs = [ex.submit(_chunk, c, a.seed, tier) for c in chunks]
            for f in as_completed(futs, timeout=RUN_TIMEOUT[tier]):
                merge(f.result())
        except (TimeoutError, BrokenProcessPool) as e:
            broken = f"{type(e).__name__}: {e}"
        finally:
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:  # check.py exits at once: leave nothing behind
                p.kill()
            for p in procs:
                p.join(5)

    known = load_known(prop.pid)
    new, old = [], collections.OrderedDict()
    for v in sorted(agg["violations"], key=lambda v: (v["scenario"], v["case"])):
        k = match_known(v, known)
        if k is None:
            new.append(v)
        else:
            old.setdefault(k["mechanism"], (k, v))

    missing = [
        r for r in prop.required
        if not any(e.startswith(r) and n > 0 for e, n in agg["events"].items())
    ]
    edir, epath = evidence_path(prop.pid)
    monitors = {k: n for k, n in sorted(agg["events"].items())
                if k.startswith("monitor:")}
    calls = {k: n for k, n in sorted(agg["events"].items())
             if k.startswith(("call:", "reject:"))}
    other = {k: n for k, n in sorted(agg["events"].items())
             if k not in monitors and k not in calls}
    samples = sorted(agg["samples"], key=lambda s: s["scenario"])
    ev = {
        "property": prop.pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["sigs"]),
            "rule": prop.rule,
            "samples": samples or [{"note": "no case completed"}],
            "executions_per_scenario": dict(sorted(agg["per"].items())),
            "monitor_evaluations": monitors,
            "observed_api_events": calls,
            "observed_states": other,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(epath, "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for mech, (k, v) in old.items():
        print(f"KNOWN-FINDING: property={prop.pid} {k['what']}")
    nmon = sum(monitors.values())
    print(
        f"{prop.pid} tier={tier} seed={a.seed} executions={agg['n']} "
        f"api_events={sum(calls.values())} monitor_evaluations={nmon} "
        f"distinct={len(agg['sigs'])} violations={len(new)} "
        f"wall={time.time()-t0:.1f}s"
    )
    if new:
        rdir = os.path.join(edir, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in new:
            key = (v["mechanism"], v["scenario"])
            if key in seen:
                continue
            seen.add(key)
            rpath = os.path.join(
                rdir, f"{prop.pid}-{v['scenario']}-{v['case']}.json"
            )
            with open(rpath, "w") as f:
                json.dump(
                    {"property": prop.pid, "seed": a.seed, "tier": tier, **v},
                    f, indent=1, default=str,
                )
            if len(seen) <= 5:
                print(f"  [{v['scenario']}#{v['case']}] {v['mechanism']}: "
                      f"{v['message'][:300]}")
                print(f"VIOLATION property={prop.pid} replay={rpath}")
        return 1
    if broken or agg["timeouts"] or missing or not agg["n"] or not nmon:
        print(
            f"INCONCLUSIVE property={prop.pid} broken={broken} "
            f"timeouts={agg['timeouts'][:5]} monitors_not_reached={missing}"
        )
        return 2
    return 0

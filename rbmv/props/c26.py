"""C26: the optional packages are optional."""
import os
import pickle
import subprocess
import sys

import numpy as np
import rigid_body_motion as rbm

from .. import optional as OP
from ..core import Prop, REPO, VERIF

prop = Prop(
    "C26",
    "optional packages",
    "processes of their own in which a subset of the optional packages "
    "cannot be imported run a battery of all ndarray functions on random "
    "trees and arrays, and one call of every feature that needs an optional "
    "package; compared with the results of the same calls in a process with "
    "all packages, and with the list of what each feature needs. Non-trivial: "
    "every process; signature = (hidden packages, ROS stand-ins present).",
    quick=80, thorough=900,
    assumptions=["packages are hidden from the import system, so that every "
                 "import of them raises ModuleNotFoundError"],
)
prop.require("monitor:import", "monitor:same-result", "monitor:feature-works",
             "monitor:feature-refused", "monitor:state-kept", "hidden:pandas",
             "hidden:xarray", "hidden:numba", "hidden:pooch",
             "hidden:netCDF4", "hidden:matplotlib", "hidden:none",
             "hidden:all", "monitor:example-data", "monitor:public-names")

EXAMPLES = {
    "head": ("head.nc", "874eddaa51bf775c7311f0046613c6f969adef6e34fe4aea2e"
             "1248a75ed3fee3"),
    "left_eye": ("left_eye.nc", "56d5488fb8d3ff08450663ed0136ac659c1d51eb534"
                 "0a7e3ed52f5ecf019139c"),
    "right_eye": ("right_eye.nc", "b038c4cb2f6932e4334f135cdf7e24ff9c3b5789"
                  "977b2ae0206ba80acf54c647"),
    "rosbag": ("example.bag", "8d27f5e554f5a0e02e0bec59b60424e582f6104380f96"
               "c3f226b4d85c107f2bc"),
}
URL = "https://github.com/phausamann/rbm-data/raw/main/"

# the functions of the documented API reference
NAMES = """transform_vectors transform_points transform_quaternions
transform_coordinates transform_angular_velocity transform_linear_velocity
ReferenceFrame register_frame deregister_frame clear_registry render_tree
cartesian_to_polar polar_to_cartesian cartesian_to_spherical
spherical_to_cartesian lookup_transform lookup_pose lookup_twist
lookup_linear_velocity lookup_angular_velocity estimate_linear_velocity
estimate_angular_velocity shortest_arc_rotation best_fit_rotation
best_fit_transform iterative_closest_point from_euler_angles qinv qmul qmean
qinterp rotate_vectors""".split()


def child(ctx, hidden, seeds, ros):
    env = dict(os.environ, MPLBACKEND="Agg")
    r = subprocess.run(
        [sys.executable, os.path.join(VERIF, "rbmv", "optional.py"), REPO,
         VERIF, ",".join(hidden), ",".join(map(str, seeds)), str(int(ros))],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    ctx.events["call:process"] += 1
    ctx.check(r.returncode == 0 and r.stdout, "import",
              "the process ended with an error",
              code=r.returncode, stderr=r.stderr[-2000:].decode(
                  "utf8", "replace"))
    return pickle.loads(r.stdout)


def same(got, want, tol=1e-7):
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(
            same(g, w, tol) for g, w in zip(got, want))
    if want is None or isinstance(want, (str, bool)):
        return got == want
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return False
    if w.dtype.kind in "Mm" or g.dtype.kind in "Mm":
        return bool(np.all(g == w))
    if w.dtype.kind not in "fiub":
        return bool(np.all(g == w))
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(g - w) <= tol * (1 + np.abs(w)))
                           | (np.isnan(g) & np.isnan(w))))


def quat_like(v):
    return isinstance(v, np.ndarray) and v.shape[-1:] == (4,)


def compare(ctx, label, got, want, mech):
    """Same outcome; error messages may differ."""
    ok = got[0] == want[0]
    if ok and got[0] == "ok":
        ok = same(got[1], want[1])
    elif ok:
        ok = got[1][0] == want[1][0]
    ctx.check(ok, mech, f"{label} differs without optional packages", got=got,
              want=want)


_REF = {}


def reference(ctx):
    """Feature results with everything installed (once per process)."""
    for ros in (False, True):
        if ros not in _REF:
            _REF[ros] = child(ctx, [], [], ros)
    return _REF


def needs(pkgs, hidden, ros):
    return any(p in hidden for p in pkgs if p != "ROS") or (
        "ROS" in pkgs and not ros)


@prop.scenario(1)
def subsets(ctx):
    rng = ctx.rng
    m = ctx.case
    if m == 0:
        hidden = []
    elif m == 1:
        hidden = list(OP.OPTIONAL)
    elif m < 2 + len(OP.OPTIONAL):
        hidden = [OP.OPTIONAL[m - 2]]
    else:
        hidden = [p for p in OP.OPTIONAL if rng.random() < 0.45]
    ros = bool(rng.random() < 0.5)
    for h in hidden:
        ctx.events["hidden:" + h] += 1
    if not hidden:
        ctx.events["hidden:none"] += 1
    if len(hidden) == len(OP.OPTIONAL):
        ctx.events["hidden:all"] += 1
    ctx.describe(hidden=hidden, ros=ros)
    seeds = [int(rng.integers(10**9)) for _ in range(2)]
    res = child(ctx, hidden, seeds, ros)
    ctx.check("import" not in res, "import", "import of the package failed",
              hidden=hidden, error=res.get("import"))
    ctx.check(os.path.abspath(res["file"]).startswith(REPO + os.sep),
              "import", "another package was imported")
    for s in seeds:
        want = OP.battery(rbm, s)
        got = res["battery"][s]
        ctx.check(len(got) == len(want), "same-result", "number of results")
        for (la, a), (lb, b) in zip(got, want):
            ctx.events["call:" + la] += 1
            compare(ctx, la, a, b, "same-result")
    ref = reference(ctx)[ros]
    for part in ("features", "ros"):
        full = {la: out for la, _, out in ref[part]}
        for label, need, out in res[part]:
            ctx.events["call:" + label] += 1
            if "netCDF4" in need and "netCDF4" in hidden:
                continue  # other backends may or may not do
            if label == "after":
                compare(ctx, label, out, full[label], "state-kept")
            elif needs(need, hidden, ros):
                # a feature that can do without gives the result instead
                ctx.check(out[0] == "error" and "ImportError" in out[1]
                          or out[0] == "ok" == full[label][0] and same(
                              out[1], full[label][1]),
                          "feature-refused", f"{label} must raise ImportError"
                          " without " + ", ".join(need), got=out)
            else:
                compare(ctx, label, out, full[label], "feature-works")
    ctx.nontrivial(tuple(hidden), ros)


@prop.scenario(0.05)
def complete(ctx):
    """With everything installed: names, example data, features."""
    res = reference(ctx)[bool(ctx.case % 2)]
    for part in ("features", "ros"):
        for label, need, out in res[part]:
            if part == "ros" and "ROS" in need:
                continue
            if label == "example_data:nope":
                ctx.check(out[0] == "error" and out[1][0] == "KeyError",
                          "example-data", got=out)
                continue
            ctx.check(out[0] == "ok", "feature-works", f"{label} failed",
                      got=out)
            if label.startswith("example_data:"):
                f, h = EXAMPLES[label.split(":")[1]]
                ctx.check(out[1][0] in ("PosixPath", "WindowsPath")
                          and out[1][1] and out[1][3] == 1
                          and tuple(out[1][2]) == (URL + f, h),
                          "example-data", "retrieved another file", got=out)
            if label == "star-names":
                miss = [n for n in NAMES if n not in out[1]]
                ctx.check(not miss, "public-names", "missing names", got=miss)
                gone = [n for n in NAMES if not hasattr(rbm, n)]
                ctx.check(not gone, "public-names", "missing names", got=gone)
    ctx.nontrivial("complete", bool(ctx.case % 2))

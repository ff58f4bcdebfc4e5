"""Battery of public calls that need no optional package, and the program that
runs it in a process of its own in which some packages cannot be imported.

    python optional.py REPO VERIF hidden,packages seed,seed... [ros]

Results are pickled to standard output.  Nothing here imports an optional
package (xarray, pandas, matplotlib, ...) unless the scenario is about it.
"""
import os
import sys

import numpy as np

REQUIRED = ("numpy", "scipy", "quaternion", "anytree")
OPTIONAL = ("pandas", "xarray", "numba", "pooch", "netCDF4", "matplotlib")
ROS = ("rospy", "rosbag", "roslaunch", "tf2_ros", "tf2_geometry_msgs",
       "geometry_msgs", "visualization_msgs", "std_msgs", "tf", "PyKDL",
       "jupyros", "ipywidgets", "IPython")


class Hide:
    """Meta path finder that makes packages look not installed."""

    def __init__(self, names):
        self.names = set(names)
        self.asked = []

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        # mpl_toolkits comes with matplotlib
        if top in self.names or (
                top == "mpl_toolkits" and "matplotlib" in self.names):
            self.asked.append(name)
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def plain(x):
    """Results as plain picklable data."""
    if isinstance(x, (tuple, list)):
        return tuple(plain(i) for i in x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    x = np.asarray(x)
    if x.dtype.name == "quaternion":
        from quaternion import as_float_array

        x = as_float_array(x)
    return x


def attempt(fn):
    """Outcome of a call: ("ok", result) or ("error", class names, text)."""
    try:
        return "ok", plain(fn())
    except Exception as e:
        return ("error", [c.__name__ for c in type(e).__mro__], str(e))


def quats(rng, *size):
    q = rng.standard_normal(size + (4,))
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


def walk(rng, n):
    from . import oracle as O

    q = [quats(rng)]
    for _ in range(n - 1):
        q.append(O.qmul(q[-1], O.rv2q(rng.standard_normal(3) * 0.2)))
    return np.array(q)


def battery(rbm, seed):
    """Outcomes of one call of everything that works on ndarrays."""
    rng = np.random.default_rng([26, seed])
    out = []

    def do(label, fn, *a, **k):
        out.append((label, attempt(lambda: fn(*a, **k))))

    rbm.clear_registry()
    dt = bool(rng.random() < 0.5)

    def clock(n, start=0.0):
        r = start + np.cumsum(rng.integers(40, 400, n)) * 0.001
        if not dt:
            return r
        return np.datetime64("2020-05-01", "ns") + np.round(
            r * 1e9).astype("timedelta64[ns]")

    names = ["w"]
    rbm.register_frame("w")
    n = int(rng.integers(6, 20))
    grid = clock(n)
    for i in range(int(rng.integers(3, 7))):
        kind = ["static", "moving", "discrete", "matrix"][rng.integers(4)]
        p = names[rng.integers(len(names))]
        name = f"f{i}"
        inv = bool(rng.random() < 0.3)
        if kind == "static":
            do("register", rbm.register_frame, name, parent=p, inverse=inv,
               translation=rng.standard_normal(3), rotation=quats(rng))
        elif kind == "matrix":
            from . import oracle as O

            do("from_rotation_matrix", lambda: rbm.ReferenceFrame
               .from_rotation_matrix(O.q2R(quats(rng)), p, name,
                                     inverse=inv).register())
        else:
            k = int(rng.integers(5, 15))
            ts = clock(k) if rng.random() < 0.6 else grid
            k = len(ts)
            do("register", rbm.register_frame, name, parent=p, inverse=inv,
               translation=np.cumsum(rng.standard_normal((k, 3)), 0),
               rotation=walk(rng, k), timestamps=ts,
               discrete=kind == "discrete")
        names.append(name)

    def pick():
        return str(names[rng.integers(len(names))])

    for _ in range(3):
        a, b, c = pick(), pick(), pick()
        mode = ["quaternion", "rotation_vector"][rng.integers(2)]
        do("lookup_transform", rbm.lookup_transform, a, b,
           return_timestamps=True)
        do("lookup_pose", rbm.lookup_pose, a, b, return_timestamps=True)
        do("lookup_twist", rbm.lookup_twist, a, b, c, mode=mode,
           return_timestamps=True)
        do("lookup_linear_velocity", rbm.lookup_linear_velocity, a, b, c,
           return_timestamps=True)
        do("lookup_angular_velocity", rbm.lookup_angular_velocity, a, b, c,
           mode=mode, return_timestamps=True)
        arr, q = rng.standard_normal((n, 3)), walk(rng, n)
        for ts in (None, grid):
            k = {} if ts is None else {"timestamps": ts,
                                       "return_timestamps": True}
            do("transform_points", rbm.transform_points, arr, b, a, **k)
            do("transform_vectors", rbm.transform_vectors, arr, b, a, **k)
            do("transform_quaternions", rbm.transform_quaternions, q, b, a,
               **k)
        do("transform_angular_velocity", rbm.transform_angular_velocity, arr,
           b, a, timestamps=grid, return_timestamps=True)
        do("transform_linear_velocity", rbm.transform_linear_velocity, arr,
           b, a, moving_frame=c, timestamps=grid, return_timestamps=True)
    do("estimate_linear_velocity", rbm.estimate_linear_velocity,
       np.cumsum(rng.standard_normal((40, 3)), 0), timestamps=clock(40),
       cutoff=0.3 if rng.random() < 0.5 else None,
       outlier_thresh=3.0 if rng.random() < 0.5 else None)
    do("estimate_angular_velocity", rbm.estimate_angular_velocity,
       walk(rng, 40), timestamps=clock(40),
       mode=["quaternion", "rotation_vector"][rng.integers(2)])
    v, w = rng.standard_normal((9, 3)), rng.standard_normal((9, 3))
    do("shortest_arc_rotation", rbm.shortest_arc_rotation, v, w)
    do("best_fit_rotation", rbm.best_fit_rotation, v, w)
    do("best_fit_transform", rbm.best_fit_transform, v, w)
    do("iterative_closest_point", rbm.iterative_closest_point, v, v[::-1]
       + 0.01)
    q, r = quats(rng, 7), quats(rng, 7)
    do("qmul", rbm.qmul, q, r)
    do("qinv", rbm.qinv, q)
    do("qmean", rbm.qmean, q)
    do("qinterp", rbm.qinterp, walk(rng, n), grid, grid[1:-1])
    do("rotate_vectors", rbm.rotate_vectors, q, v[:7])
    do("from_euler_angles", rbm.from_euler_angles, roll=v[:, 0], yaw=v[:, 1],
       order="rpy")
    do("cartesian_to_spherical", rbm.cartesian_to_spherical, v)
    do("spherical_to_cartesian", rbm.spherical_to_cartesian, np.abs(v))
    do("cartesian_to_polar", rbm.cartesian_to_polar, v[:, :2])
    do("polar_to_cartesian", rbm.polar_to_cartesian, np.abs(v[:, :2]))
    do("transform_coordinates", rbm.transform_coordinates, v,
       into="spherical", outof="cartesian")
    do("deregister", rbm.deregister_frame, names[-1])
    do("lookup_deregistered", rbm.lookup_transform, names[-1], "w")
    out.append(("registry", ("ok", tuple(sorted(rbm.registry)))))
    return out


def example_tree(rbm):
    rbm.clear_registry()
    rbm.register_frame("world")
    ts = np.datetime64("2020-01-01", "ns") + np.arange(
        8) * np.timedelta64(10**8, "ns")
    q = walk(np.random.default_rng(0), 8)
    rbm.register_frame("body", parent="world", translation=np.arange(
        24.0).reshape(8, 3), rotation=q, timestamps=ts)
    rbm.register_frame("head", parent="body", translation=(1.0, 2.0, 3.0))
    return ts


CSV = (
    "Format Version,1.22,Capture Start Time,2020-01-02 03.04.05.678 PM,"
    "Rotation Type,XYZ,Length Units,Meters,,\n,,,,,,,\n"
    + ",," + ",".join(["Rigid Body"] * 6) + "\n"
    + ",," + ",".join(["b"] * 6) + "\n" + ",," + ",".join(["ID"] * 6) + "\n"
    + ",," + ",".join(["Rotation"] * 3 + ["Position"] * 3) + "\n"
    + "Frame,Time (Seconds),X,Y,Z,X,Y,Z\n"
    + "0,0.0,10,20,30,1,2,3\n1,0.01,11,21,31,4,5,6\n"
)


def features(rbm, scratch):
    """(label, packages it needs, outcome) of everything else."""
    example_tree(rbm)
    csv = os.path.join(scratch, "take.csv")
    with open(csv, "w") as f:
        f.write(CSV)
    xr = {"xarray", "pandas"}
    arr = np.arange(24.0).reshape(8, 3)
    out = []

    def do(label, need, fn):
        out.append((label, sorted(need), attempt(fn)))

    def labelled():
        import xarray

        da = rbm.lookup_transform("body", "world", as_dataset=True)
        moved = rbm.transform_points(da.translation, into="head",
                                     outof="world")
        q = da.rotation.rbm.qinterp(time=da.time[1:3])
        vel = rbm.estimate_linear_velocity(da.translation, dim="cartesian_axis",
                                           timestamps="time")
        assert isinstance(vel, xarray.DataArray)
        rf = rbm.ReferenceFrame.from_dataset(
            da, "translation", "rotation", "time", "world", "ds")
        return (moved.values, q.values, da.rotation.rbm.qinv().values,
                vel.values, rf.lookup_transform("world"),
                rbm.lookup_pose("body", "world", as_dataset=True)
                .position.values,
                rbm.lookup_twist("body", "world", as_dataset=True)
                .linear_velocity.values,
                rbm.lookup_linear_velocity("body", "world",
                                           as_dataarray=True).values,
                rbm.lookup_angular_velocity("body", "world",
                                            as_dataarray=True).values)

    do("labelled", xr, labelled)
    for name, fn in (
            ("lookup_transform", rbm.lookup_transform),
            ("lookup_pose", rbm.lookup_pose),
            ("lookup_twist", rbm.lookup_twist)):
        do(name + "-dataset", xr, lambda: list(
            fn("body", "world", as_dataset=True).data_vars))
    for name, fn in (
            ("lookup_linear_velocity", rbm.lookup_linear_velocity),
            ("lookup_angular_velocity", rbm.lookup_angular_velocity)):
        do(name + "-dataarray", xr, lambda: fn(
            "body", "world", as_dataarray=True).values)
    load = rbm.io.load_optitrack
    do("optitrack", {"pandas"}, lambda: load(csv)["b"])
    do("optitrack-pandas", {"pandas"}, lambda: load(
        csv, import_format="pandas")["b"].values)
    do("optitrack-xarray", xr, lambda: load(
        csv, import_format="xarray")["b"].position.values)

    def plots():
        from matplotlib import pyplot as plt

        for f, a in ((rbm.plot.reference_frame, "head"),
                     (rbm.plot.points, arr), (rbm.plot.vectors, arr),
                     (rbm.plot.quaternions, walk(
                         np.random.default_rng(1), 3))):
            f(a)
        k = len(plt.get_fignums())
        plt.close("all")
        return k

    def first(fn, *a):
        r = fn(*a)
        sys.modules["matplotlib.pyplot"].close("all")
        return type(r).__name__

    do("plots", {"matplotlib"}, plots)
    do("plot.reference_frame", {"matplotlib"},
       lambda: first(rbm.plot.reference_frame, "head"))
    do("plot.points", {"matplotlib"}, lambda: first(rbm.plot.points, arr))
    do("plot.vectors", {"matplotlib"}, lambda: first(rbm.plot.vectors, arr))
    do("plot.quaternions", {"matplotlib"}, lambda: first(
        rbm.plot.quaternions, walk(np.random.default_rng(1), 3)))

    def example(name):
        try:
            import pooch
        except ImportError:
            return str(rbm.example_data[name])
        seen, old = [], pooch.retrieve

        def retrieve(url=None, known_hash=None, *a, **k):
            seen.append((url, known_hash))
            return os.path.join(scratch, "x.nc")

        pooch.retrieve = retrieve
        try:
            got = rbm.example_data[name]
        finally:
            pooch.retrieve = old
        return (str(type(got).__name__), str(got) == os.path.join(
            scratch, "x.nc"), tuple(seen[0]), len(seen))

    for name in ("head", "left_eye", "right_eye", "rosbag", "nope"):
        do("example_data:" + name, {"pooch"}, lambda: example(name))
    star = {}
    do("import-star", set(), lambda: (exec(
        "from rigid_body_motion import *", star), len(star) > 30)[1])
    do("star-names", set(), lambda: sorted(
        k for k in star if not k.startswith("__")))
    # frames and registry are as before
    do("after", set(), lambda: (tuple(sorted(rbm.registry)),
                                rbm.lookup_transform("head", "world")))
    return out


def ros_features(rbm, scratch, real):
    """The ROS interface without its client libraries, or with stand-ins."""
    out = []
    ts = example_tree(rbm)
    xr = {"xarray", "pandas"}
    ros = set() if real else {"ROS"}

    def do(label, need, fn):
        out.append((label, sorted(need), attempt(fn)))

    ros_mod = rbm.ros
    bag = os.path.join(scratch, "a.bag")

    def reader(fn):
        with ros_mod.RosbagReader(bag) as r:
            return fn(r)

    def writer():
        with ros_mod.RosbagWriter(bag) as w:
            w.write_transform_stamped(
                ts.astype("int64") / 1e9, np.arange(24.0).reshape(8, 3),
                walk(np.random.default_rng(0), 8), "/tf", "p", "c")

    do("construct", set(), lambda: [ros_mod.RosbagReader(bag).bag_file.name,
                                    ros_mod.RosbagWriter(bag).bag_file.name])
    do("writer", ros, writer)
    do("topics", ros, lambda: sorted(reader(
        lambda r: r.get_topics_and_types()).items()))
    do("load_messages", ros, lambda: reader(
        lambda r: sorted(r.load_messages("/tf").items())))
    do("load_dataset", ros | xr, lambda: reader(
        lambda r: r.load_dataset("/tf").position.values))
    do("export", ros | xr | {"netCDF4"}, lambda: reader(
        lambda r: r.export("/tf")))
    do("transformer", ros, lambda: ros_mod.Transformer.from_reference_frame(
        rbm.registry["head"]).can_transform("head", "body", 0.0))
    do("marker", ros, lambda: ros_mod.ReferenceFrameMarkerPublisher(
        "body", base="world").publish())
    do("broadcaster", ros | {"pandas"},
       lambda: ros_mod.ReferenceFrameTransformBroadcaster(
           "head", base="body").publish())
    do("init_node", ros, lambda: ros_mod.init_node("n") and True)
    do("after", set(), lambda: (tuple(sorted(rbm.registry)),
                                rbm.lookup_transform("head", "world")))
    return out


def main():
    import pickle
    import shutil
    import tempfile
    import warnings

    repo, verif, hidden, seeds, ros = sys.argv[1:6]
    stdout = os.dup(1)
    os.dup2(2, 1)  # prints of the library do not get into the results
    hidden = [h for h in hidden.split(",") if h]
    hide = Hide(hidden + ([] if ros == "1" else list(ROS)))
    sys.meta_path.insert(0, hide)
    sys.path[:0] = [repo, verif]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    scratch = tempfile.mkdtemp(prefix="rbmv-c26-")
    res = {}
    try:
        if ros == "1":
            from rbmv import fakeros

            fakeros.install()
        try:
            import rigid_body_motion as rbm
        except BaseException as e:
            res["import"] = f"{type(e).__name__}: {e}"
        else:
            from rbmv import optional as me

            res["file"] = rbm.__file__
            res["loaded"] = sorted(
                h for h in OPTIONAL if h in sys.modules)
            res["battery"] = {s: me.battery(rbm, s) for s in (
                int(s) for s in seeds.split(",") if s)}
            res["features"] = me.features(rbm, scratch)
            res["ros"] = me.ros_features(rbm, scratch, ros == "1")
            res["asked"] = sorted(set(hide.asked))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with os.fdopen(stdout, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()

"""Batteries of read-only queries over a frame tree (used by C07 and C22)."""

import numpy as np
import quaternion as nq
import xarray as xr
import rigid_body_motion as rbm

from . import arrays as A, gen as G, oracle as O


class Query:
    def __init__(self, name, fn, *args, **kwargs):
        self.name, self.fn, self.args, self.kwargs = name, fn, args, kwargs

    def __call__(self):
        return self.fn(*self.args, **self.kwargs)


def flatten(x, prefix=""):
    """Result -> list of (label, ndarray or plain value)."""
    if x is None or isinstance(x, (str, bool)):
        return [(prefix, x)]
    if isinstance(x, xr.DataArray):
        out = flatten(x.values, prefix + ".data")
        out.append((prefix + ".dims", x.dims))
        out.append((prefix + ".name", x.name))
        out.append((prefix + ".attrs", repr(sorted(x.attrs.items()))))
        for c in sorted(map(str, x.coords)):
            out += flatten(x.coords[c].values, f"{prefix}.coord[{c}]")
        return out
    if isinstance(x, xr.Dataset):
        out = []
        for v in sorted(x.data_vars):
            out += flatten(x[v], f"{prefix}.{v}")
        return out
    if isinstance(x, (tuple, list)):
        out = [(prefix + ".len", len(x))]
        for i, e in enumerate(x):
            out += flatten(e, f"{prefix}[{i}]")
        return out
    a = np.asarray(x)
    if a.dtype == np.quaternion:
        a = nq.as_float_array(a)
    return [(prefix, np.array(a))]


def same(f1, f2, tol=1e-12):
    """Compare flattened results; returns None or the label that differs."""
    if [k for k, _ in f1] != [k for k, _ in f2]:
        return "structure"
    for (k, a), (_, b) in zip(f1, f2):
        if isinstance(a, np.ndarray):
            if not isinstance(b, np.ndarray) or a.shape != b.shape \
                    or a.dtype != b.dtype:
                return k + " (shape/dtype)"
            if a.dtype.kind in "fc":
                if not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
                    return k
            elif not np.array_equal(a, b):
                return k
        elif a != b:
            return k
    return None


def arrays_of(x):
    """All raw ndarrays in an argument or result (data only)."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, xr.DataArray):
        return [x.values]
    if isinstance(x, xr.Dataset):
        return [x[v].values for v in x.data_vars]
    if isinstance(x, (tuple, list)):
        return [a for e in x for a in arrays_of(e)]
    return []


def snapshot(x):
    """Deep, comparable copy of an argument."""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype, x.shape, x.tobytes())
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        return ("xr", x.copy(deep=True), repr(x.attrs))
    if isinstance(x, (list, tuple)):
        return (type(x), [snapshot(e) for e in x])
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    return ("obj", id(x))


def unchanged(x, snap):
    if snap[0] == "xr":
        return x.identical(snap[1]) and repr(x.attrs) == snap[2]
    if snap[0] == "dict":
        return len(x) == len(snap[1]) and all(
            k == k2 and unchanged(v, s)
            for (k, v), (k2, s) in zip(x.items(), snap[1]))
    if isinstance(x, (list, tuple)):
        return type(x) is snap[0] and len(x) == len(snap[1]) and all(
            unchanged(e, s) for e, s in zip(x, snap[1]))
    return snapshot(x) == snap


def ok_len(up_down, ats=None, n=6):
    ts = O.target_ts(*up_down, array_ts=ats)
    return ts is not None and len(ts) >= n


def frame_queries(ctx, frames, clock, n):
    """Random tree queries (guaranteed well-formed)."""
    rng = ctx.rng
    out = []
    guard = 0
    while len(out) < n and guard < 20 * n:
        guard += 1
        a = frames[rng.integers(len(frames))]
        b = frames[rng.integers(len(frames))]
        c = frames[rng.integers(len(frames))]
        ra, rb, rc = (G.ref(ctx, x) for x in (a, b, c))
        k = rng.integers(10)
        if k == 0:
            out.append(Query("lookup_transform", rbm.lookup_transform, ra, rb,
                             return_timestamps=True))
        elif k == 1:
            out.append(Query("lookup_pose", rbm.lookup_pose, ra, rb,
                             as_dataset=True))
        elif k == 2:
            out.append(Query("m.lookup_transform", a.obj.lookup_transform, rb))
        elif k in (3, 4, 5):
            kind = ("points", "vectors", "quaternions")[k - 3]
            ats = A.array_clock(rng, clock, frames)
            canon, _ = A.canonical(rng, kind, len(ats))
            arr, ax, ta = A.place(rng, canon, True)
            kw = dict(axis=ax, time_axis=ta)
            if rng.random() < 0.3:
                dims = ["d%d" % i for i in range(arr.ndim)]
                dims[ta] = "time"
                da = xr.DataArray(
                    arr, {"time": ats, "lab": ("time", rng.standard_normal(
                        len(ats)))}, dims, "nm", {"u": "m"})
                out.append(Query("transform_%s[da]" % kind,
                                 getattr(rbm, "transform_" + kind), da, rb, ra,
                                 dim=dims[ax], timestamps="time"))
            elif rng.random() < 0.5:
                out.append(Query("transform_" + kind,
                                 getattr(rbm, "transform_" + kind),
                                 G.dress(rng, arr), rb, ra, timestamps=ats,
                                 return_timestamps=True, **kw))
            else:
                out.append(Query("m.transform_" + kind,
                                 getattr(a.obj, "transform_" + kind),
                                 G.dress(rng, arr), rb, timestamps=ats,
                                 return_timestamps=True, **kw))
        elif k in (6, 7, 8):
            # velocities need enough common samples everywhere
            p = O.path(a, b)
            if not ok_len(p):
                continue
            ts = O.lookup(a, b)[2]
            if not (ok_len(O.path(b, c), ts) and ok_len(O.path(a, c), ts)):
                continue
            f = ("lookup_twist", "lookup_linear_velocity",
                 "lookup_angular_velocity")[k - 6]
            kw = {}
            if rng.random() < 0.3:
                kw["as_dataset" if k == 6 else "as_dataarray"] = True
            else:
                kw["return_timestamps"] = True
            if k != 7 and rng.random() < 0.3:
                kw["mode"] = "rotation_vector"
            out.append(Query(f, getattr(rbm, f), ra, rb, rc, **kw))
        else:
            ats = A.array_clock(rng, clock, frames)
            if len(ats) < 4:
                continue
            arr = G.vec(rng, len(ats))
            # static pair: no resampling problems
            if any(f.ts is not None for f in sum(O.path(a, b), [])):
                continue
            out.append(Query("transform_angular_velocity",
                             rbm.transform_angular_velocity, arr, rb, ra,
                             timestamps=ats, what="reference_frame"))
    return out


def pure_queries(ctx, n):
    """Random calls of the functions that do not need frames."""
    rng = ctx.rng
    out = []
    D = lambda x: G.dress(rng, x)
    for _ in range(n):
        k = rng.integers(18)
        m = int(rng.integers(4, 9))
        q, v = G.walk_quat(rng, m), G.vec(rng, m)
        w = G.vec(rng, m)
        ts = np.cumsum(rng.uniform(0.2, 0.6, m))
        if k == 0:
            out.append(Query("qmul", rbm.qmul, D(q), D(G.walk_quat(rng, m))))
        elif k == 1:
            out.append(Query("qinv", rbm.qinv, D(q)))
        elif k == 2:
            out.append(Query("qmean", rbm.qmean, D(q)))
        elif k == 3:
            tout = np.sort(rng.uniform(ts[0], ts[-1], 5))
            out.append(Query("qinterp", rbm.qinterp, D(q), ts, tout))
        elif k == 4:
            out.append(Query("rotate_vectors", rbm.rotate_vectors, D(q), D(v)))
        elif k == 5:
            out.append(Query("from_euler_angles", rbm.from_euler_angles, D(v)))
        elif k == 6:
            o, i, d = [("cartesian", "spherical", 3), ("cartesian", "polar", 2),
                       ("spherical", "cartesian", 3),
                       ("polar", "cartesian", 2)][rng.integers(4)]
            x = np.array(v[:, :d])
            if rng.random() < 0.4:
                x = xr.DataArray(x, dims=("n", "c"),
                                 attrs={"coordinate_system": o})
                out.append(Query("transform_coordinates[da]",
                                 rbm.transform_coordinates, x, i))
            else:
                out.append(Query("transform_coordinates",
                                 rbm.transform_coordinates, D(x), i, o))
        elif k == 7:
            out.append(Query("estimate_linear_velocity",
                             rbm.estimate_linear_velocity, v, timestamps=ts))
        elif k == 8:
            qq = q.copy()
            if rng.random() < 0.5:
                qq[m // 2] = np.nan
                m2 = 8
                qq = G.walk_quat(rng, m2)
                ts = np.cumsum(rng.uniform(0.2, 0.6, m2))
                qq[2] = np.nan
            out.append(Query("estimate_angular_velocity",
                             rbm.estimate_angular_velocity, qq,
                             timestamps=ts))
        elif k == 9:
            out.append(Query("shortest_arc_rotation",
                             rbm.shortest_arc_rotation, D(v), D(w)))
        elif k == 10:
            out.append(Query("best_fit_rotation", rbm.best_fit_rotation,
                             np.array(v), np.array(w)))
        elif k == 11:
            out.append(Query("best_fit_transform", rbm.best_fit_transform,
                             np.array(v), np.array(w)))
        elif k == 12:
            p = rng.uniform(-1, 1, (20, 3))
            p2 = O.apply_R(O.q2R(O.rv2q(G.vec(rng, (), 0.03))), p) + 0.01
            init = (np.zeros(3), np.array([1.0, 0, 0, 0]))
            if rng.random() < 0.5:
                out.append(Query("iterative_closest_point",
                                 rbm.iterative_closest_point, p, p2, init_transform=init))
            else:
                out.append(Query("iterative_closest_point",
                                 rbm.iterative_closest_point, p, p2))
        elif k == 13:
            da = xr.DataArray(q, {"time": ts, "quaternion_axis": list("wxyz"),
                                  "n": ("time", np.arange(m) * 1.0)},
                              ("time", "quaternion_axis"), "o", {"a": 1})
            if rng.random() < 0.5:
                out.append(Query("rbm.qinv", lambda d=da: d.rbm.qinv()))
                out[-1].args = ()
                out[-1].watch = [da]
            else:
                to = np.sort(rng.uniform(ts[0], ts[-1], 4))
                out.append(Query("rbm.qinterp",
                                 lambda d=da, t=to: d.rbm.qinterp(time=t)))
                out[-1].watch = [da, to]
        elif k == 14:  # options of the estimators, with missing samples
            m = int(rng.integers(40, 80))
            ts = np.arange(m) * 0.1
            x, r = np.cumsum(G.vec(rng, m), 0), G.walk_quat(rng, m)
            if rng.random() < 0.5:
                x[m // 2] = np.nan
                r[m // 3] = np.nan
            if rng.random() < 0.4:
                x.flags.writeable = r.flags.writeable = False
            lin = rng.random() < 0.4
            kw = {"timestamps": ts}
            if rng.random() < 0.5:
                kw["cutoff"] = 0.3
            if rng.random() < 0.6:  # all samples stay in range
                kw["outlier_thresh"] = 1e6
            if not lin and rng.random() < 0.5:
                kw["mode"] = "rotation_vector"
            f = "estimate_linear_velocity" if lin else (
                "estimate_angular_velocity")
            arr = x if lin else r
            if np.isnan(arr).any() and "outlier_thresh" in kw:
                del kw["outlier_thresh"]
            out.append(Query(f + "[options]", getattr(rbm, f), arr, **kw))
        elif k == 15:  # missing and zero values, all forms
            for x in (q, v, w):
                x[rng.integers(m)] = (
                    np.nan if rng.random() < 0.5 or x is q else 0.0)
            f = rng.integers(4)
            if f == 0:
                out.append(Query("rotate_vectors[all]", rbm.rotate_vectors,
                                 D(q), D(v), one_to_one=False))
            elif f == 1:
                out.append(Query("qmul[3]", rbm.qmul, D(q), D(q[::-1]),
                                 D(q)))
            elif f == 2:
                out.append(Query("shortest_arc_rotation[nan]",
                                 rbm.shortest_arc_rotation, D(v), D(w)))
            else:
                out.append(Query("from_euler_angles[single]",
                                 lambda a=v[:, 0], b=v[:, 1], o=str(
                                     rng.choice(["rpy", "ypr", "pry"])):
                                 rbm.from_euler_angles(roll=a, yaw=b,
                                                       order=o)))
                out[-1].watch = [v]
        elif k == 16:  # whole numbers
            a, b = G.as_int(rng, v, w)
            f = rng.integers(4)
            if f == 0:
                out.append(Query("best_fit_transform[int]",
                                 rbm.best_fit_transform, a, b))
            elif f == 1:
                out.append(Query("shortest_arc_rotation[int]",
                                 rbm.shortest_arc_rotation, a, b))
            elif f == 2:
                out.append(Query("transform_coordinates[int]",
                                 rbm.transform_coordinates, a, "spherical",
                                 "cartesian"))
            else:
                out.append(Query("estimate_linear_velocity[int]",
                                 rbm.estimate_linear_velocity, a,
                                 timestamps=ts))
        else:
            a = xr.DataArray(v, {"time": ts}, ("time", "c"), "p", {"b": 2})
            out.append(Query("estimate_linear_velocity[da]",
                             rbm.estimate_linear_velocity, a, dim="c",
                             timestamps="time"))
    return out

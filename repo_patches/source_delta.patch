From 0685a384dda9b96529e7ee9bdd5a2cb6b16568f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 01/50] fix: rotate_vectors divides by the squared norm of the
 quaternion

---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..aa063cd 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From d40b6cf8096e88c84ab4293e890e8798ac62360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 02/50] fix: rotate_vectors moves instead of swapping the
 spatial and quaternion axes

---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index aa063cd..b522575 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -231,7 +231,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From f4bf5ac52825a92aff6baf1c453a953162591a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 03/50] fix: qmean picks the eigenvector with the largest
 eigenvalue

---
 rigid_body_motion/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index b522575..6f10627 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -121,12 +121,12 @@ def qmean(q, axis=None, qaxis=-1):
     qt = np.swapaxes(q, -2, -1)
     A = np.mean(q * qt, axis=axis)
 
-    # compute largest eigenvector of A
-    l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
+    # compute eigenvector of A for the largest eigenvalue
+    _, v = np.linalg.eigh(A)
+    qm = v[..., -1]
 
-    qm = np.real(v)
+    # make real part non-negative because the sign of eigenvectors is arbitrary
+    qm = np.where(qm[..., :1] < 0, -qm, qm)
 
     if was_quaternion:
         return as_quat_array(qm)
-- 
2.43.0


From d9fe24c28f82e88297925c8d1bfb2470639ad527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 04/50] fix: best_fit_rotation never returns a reflection

---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..4cc7d58 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -324,6 +324,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From c45e6a3c7e03dc0bbf5c0c7529825b7c6f6efbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 05/50] fix: shortest_arc_rotation of antiparallel vectors is a
 half turn, not NaN

---
 rigid_body_motion/estimators.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 4cc7d58..9c4453e 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -271,7 +271,18 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     sn2 = np.sum(v2**2, axis=axis, keepdims=True)
     d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
     c12 = np.cross(v1, v2, axis=axis)
-    rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
+    s12 = np.sqrt(sn1 * sn2)
+    rotation = np.concatenate((s12 + d12, c12), axis=axis)
+
+    # for antiparallel vectors, rotate by 180 degrees around any orthogonal axis
+    v = np.moveaxis(v1, axis, -1)
+    orthogonal = np.cross(v, np.eye(3)[np.argmin(np.abs(v), axis=-1)])
+    orthogonal = np.moveaxis(orthogonal, -1, axis)
+    half_turn = np.concatenate(
+        (np.zeros_like(s12), np.broadcast_to(orthogonal, c12.shape)), axis=axis
+    )
+    rotation = np.where(s12 + d12 <= 1e-15 * s12, half_turn, rotation)
+
     rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
 
     if coords is not None:
-- 
2.43.0


From c2d45ac34e5e6ea61479d62da44cb6f3814f8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 06/50] fix: polar angle of cartesian_to_spherical is defined
 at the origin

---
 rigid_body_motion/coordinate_systems.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..0d431e0 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -82,7 +82,10 @@ def cartesian_to_spherical(arr, axis=-1):
         )
 
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
+    theta = np.arctan2(
+        np.hypot(np.take(arr, 0, axis=axis), np.take(arr, 1, axis=axis)),
+        np.take(arr, 2, axis=axis),
+    )
     phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
     return np.stack((r, theta, phi), axis=axis)
 
-- 
2.43.0


From 819ee74b867da282a51a003b8fca9dfddb8d3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 07/50] fix: axis=0 and timestamps=False are respected by the
 top-level functions

---
 rigid_body_motion/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..4d08cc3 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,8 +395,10 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        if timestamps is False:
+            timestamps = None
         time_dim = None
         coords = None
         dims = None
@@ -410,7 +412,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
-- 
2.43.0


From e2d7bf3430a2c3eadd8a2554a63b284330621a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 08/50] fix: top-level and coordinate system functions accept
 array_like input

---
 rigid_body_motion/coordinate_systems.py | 8 ++++++++
 rigid_body_motion/core.py               | 1 +
 2 files changed, 9 insertions(+)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 0d431e0..1475e9f 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -19,6 +19,8 @@ def cartesian_to_polar(arr, axis=-1):
     arr_polar : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -46,6 +48,8 @@ def polar_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -75,6 +79,8 @@ def cartesian_to_spherical(arr, axis=-1):
     arr_spherical : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
@@ -108,6 +114,8 @@ def spherical_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 4d08cc3..6a2679f 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -399,6 +399,7 @@ def _maybe_unpack_dataarray(
         time_axis = time_axis or 0
         if timestamps is False:
             timestamps = None
+        arr = np.asanyarray(arr)
         time_dim = None
         coords = None
         dims = None
-- 
2.43.0


From 9d231315f32460ab9b2529f7ffba9b87c6125798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 09/50] fix: plot_reference_frame updates the z limits of the
 axes

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From 23fb9fdefc27020a8371c1ca7eee14c69d90229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 10/50] fix: re-registering a frame with update=True keeps it
 attached to its parent

---
 rigid_body_motion/reference_frames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..10df4aa 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -22,7 +22,8 @@ def _register(rf, update=False):
     if rf.name in _registry:
         if update:
             # TODO keep children?
-            _registry[rf.name].parent = None
+            if _registry[rf.name] is not rf:
+                _registry[rf.name].parent = None
         else:
             raise ValueError(
                 f"Reference frame with name {rf.name} is already registered. "
-- 
2.43.0


From 77c0c0bb22e8419bbc13d64be310a4d491cdf2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 11/50] fix: failed frame construction or registration leaves
 the tree unchanged

---
 rigid_body_motion/reference_frames.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 10df4aa..94e896b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -113,7 +113,12 @@ def register_frame(
         inverse=inverse,
         discrete=discrete,
     )
-    _register(rf, update=update)
+    try:
+        _register(rf, update=update)
+    except ValueError:
+        # don't leave an unregistered frame behind in the parent's tree
+        rf.parent = None
+        raise
 
 
 def deregister_frame(name):
@@ -185,14 +190,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -201,6 +205,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # only attach to the tree once all arguments have been validated
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From 24d5ffcfbe26e19b60aec6a1a97050f682c49648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 12/50] fix: vector estimators accept DataArrays with any
 dimension order and without coordinates

---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 9c4453e..245643e 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From 979fccb23ba2b77847237f2cb31988ffc997b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 13/50] fix: transforms respect the axis and time_axis
 arguments for any array layout

---
 rigid_body_motion/reference_frames.py | 38 ++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 94e896b..622513d 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -294,10 +294,23 @@ class ReferenceFrame(NodeMixin):
                     f"as the timestamps"
                 )
             # TODO this should be done somewhere else
-            arr = np.swapaxes(arr, 0, time_axis)
+            arr = np.moveaxis(arr, (time_axis, axis), (0, -1))
+        else:
+            arr = np.moveaxis(arr, axis, -1)
 
         return arr, timestamps
 
+    @classmethod
+    def _restore_axes(cls, arr, ndim, axis, timestamps, time_axis):
+        """Move time and spatial axis back to their original position."""
+        if timestamps is not None:
+            return np.moveaxis(arr, (0, -1), (time_axis, axis))
+        elif arr.ndim == ndim:
+            return np.moveaxis(arr, -1, axis)
+        else:
+            # time axis was prepended by transformation
+            return arr
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -640,16 +653,15 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        ndim = arr.ndim
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, arr_ts, time_axis)
 
         if not return_timestamps:
             return arr
@@ -701,18 +713,17 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        ndim = arr.ndim
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, arr_ts, time_axis)
 
         if not return_timestamps:
             return arr
@@ -765,18 +776,15 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
+        ndim = arr.ndim
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, arr_ts, time_axis)
 
         if not return_timestamps:
             return arr
-- 
2.43.0


From a0430e48c72cc41576ae4e8a2e2c8648fa5b53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 14/50] fix: resampling to identical timestamps returns the
 original data

---
 rigid_body_motion/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 6a2679f..b3c07a3 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -62,6 +62,9 @@ class TransformMatcher:
             rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
+        elif np.array_equal(frame.timestamps, timestamps):
+            translation = frame.translation
+            rotation = frame.rotation
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
@@ -88,6 +91,8 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
+        elif np.array_equal(array.timestamps, timestamps):
+            return array.data
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From 1cdddbbc727bfca7c0f7b81ca4e0c35ba4bce8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 15/50] fix: quaternion interpolation does not depend on the
 sign of the quaternions

---
 rigid_body_motion/core.py  | 2 ++
 rigid_body_motion/utils.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index b3c07a3..65b8f4e 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -75,6 +75,7 @@ class TransformMatcher:
                     as_quat_array(frame.rotation),
                     frame.timestamps.astype(float),
                     timestamps.astype(float),
+                    unflip_input_rotors=True,
                 )
             )
 
@@ -101,6 +102,7 @@ class TransformMatcher:
                         as_quat_array(array.data),
                         array.timestamps.astype(float),
                         timestamps.astype(float),
+                        unflip_input_rotors=True,
                     )
                 )
             else:
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 6f10627..8df1205 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -180,7 +180,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
 
     q = np.swapaxes(q, axis, 0)
     try:
-        qi = squad(q, t_in, t_out)
+        qi = squad(q, t_in, t_out, unflip_input_rotors=True)
     except ValueError:
         raise RuntimeError(
             "Error using SQUAD with multi-dimensional array, please upgrade "
-- 
2.43.0


From d4cb859b785dc5ea2ba61ec7020dcd9fc6750495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 16/50] fix: angular velocity does not depend on the sign of
 the quaternions

---
 rigid_body_motion/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 65b8f4e..77a9db2 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -11,6 +11,7 @@ from quaternion import (
     derivative,
     quaternion,
     squad,
+    unflip_rotors,
 )
 from scipy.interpolate import interp1d
 from scipy.signal import butter, filtfilt
@@ -767,10 +768,13 @@ def _estimate_angular_velocity(
         valid_idx = [slice(None)] * r.ndim
         valid_idx[time_axis] = ~nan_idx
         valid_idx = tuple(valid_idx)
+        # q and -q are the same rotation, signs must be continuous over time
+        q = unflip_rotors(as_quat_array(r[valid_idx]), axis=time_axis)
         dq = as_quat_array(
-            derivative(r[valid_idx], timestamps[~nan_idx], axis=time_axis)
+            derivative(
+                as_float_array(q), timestamps[~nan_idx], axis=time_axis
+            )
         )
-        q = as_quat_array(r[valid_idx])
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-- 
2.43.0


From d2db488383c3c555b3f3fdb734e7dd5c95dc0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 17/50] fix: datetime timestamps with resolutions other than ns
 are converted

---
 rigid_body_motion/core.py             | 13 +++++++++++--
 rigid_body_motion/reference_frames.py |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 77a9db2..7d4997d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -323,6 +323,15 @@ class TransformMatcher:
         return (*arrays, timestamps)
 
 
+def _as_timestamps(timestamps):
+    """Convert to timestamp array, with ns resolution in case of datetimes."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps
+
+
 def _resolve_axis(axis, ndim):
     """Convert axis argument into actual array axes."""
     if isinstance(axis, int) and axis < 0:
@@ -747,7 +756,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -813,7 +822,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 622513d..f6d3c31 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -6,6 +6,7 @@ from quaternion import as_float_array, as_quat_array, from_rotation_matrix
 
 from rigid_body_motion.core import (
     TransformMatcher,
+    _as_timestamps,
     _estimate_angular_velocity,
     _estimate_linear_velocity,
     _resolve_rf,
@@ -225,7 +226,7 @@ class ReferenceFrame(NodeMixin):
     def _init_arrays(translation, rotation, timestamps, inverse):
         """Initialize translation, rotation and timestamp arrays."""
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _as_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional.")
             t_shape = (len(timestamps), 3)
@@ -285,7 +286,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _as_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional")
             if arr.shape[time_axis] != len(timestamps):
-- 
2.43.0


From b14574a760f5411ddedec459917ee2d5e1c7415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 18/50] fix: velocity transforms respect the axis and time_axis
 arguments for any array layout

---
 rigid_body_motion/reference_frames.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index f6d3c31..1f04114 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -888,19 +888,17 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        ndim = arr.ndim
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, arr_ts, time_axis)
 
         if return_timestamps:
             return arr, ts_out
@@ -1032,13 +1030,10 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        ndim = arr.ndim
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1055,7 +1050,9 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        offset = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(offset, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, arr_ts, time_axis)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 30d2569ae1f42ca9d5a40521b871576c3ec9ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 19/50] fix: outlier suppression of linear velocity works for
 any array layout

---
 rigid_body_motion/core.py       | 13 ++++++++++---
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 7d4997d..8f78de0 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -818,7 +818,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
+    axis=-1,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -827,11 +832,13 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
+        dt = np.linalg.norm(
+            np.diff(translation, n=2, axis=time_axis), axis=axis
+        )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
             timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
+            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
             axis=time_axis,
             bounds_error=False,
         )(timestamps)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 245643e..12c12e3 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -135,6 +135,7 @@ def estimate_linear_velocity(
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
+        axis=axis,
     )
 
     if coords is not None:
-- 
2.43.0


From 6aeabbdc4b9cf596a28bf873636a57f01edd3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 20/50] fix: velocity estimation accepts array_like timestamps
 and keeps ns precision

---
 rigid_body_motion/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8f78de0..21bb84d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -755,8 +755,10 @@ def _estimate_angular_velocity(
     cutoff=None,
 ):
     """Estimate angular velocity of transform."""
+    timestamps = _as_timestamps(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
+        # subtract first because float epoch timestamps have lost precision
+        timestamps = (timestamps - timestamps[:1]).astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -826,8 +828,10 @@ def _estimate_linear_velocity(
     axis=-1,
 ):
     """Estimate linear velocity of transform."""
+    timestamps = _as_timestamps(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
+        # subtract first because float epoch timestamps have lost precision
+        timestamps = (timestamps - timestamps[:1]).astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
-- 
2.43.0


From 56229b9ed7f35721a43207e03697dd1ceb81219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 21/50] fix: broadcaster publishes the requested message for
 idx=0

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..973d93c 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -453,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = self.timestamps.values[idx].astype(float) / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From 9aed54e7935aec7b3bd8f231d84f31273b3f8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 22/50] fix: broadcaster finds the nearest timestamp with
 recent pandas versions

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 973d93c..ea5e309 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -493,7 +493,7 @@ class ReferenceFrameTransformBroadcaster:
                     ts = pd.to_datetime(
                         rospy.Time.to_sec(transform.header.stamp), unit="s"
                     )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
+                    idx = self.timestamps.get_indexer([ts], method="nearest")[0]
                     self.publish(idx)
                 else:
                     self.publish()
-- 
2.43.0


From 0e531e6be4f8d163ae957fb4402e231419c867d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 23/50] fix: stopping a publisher right after spin() is not
 lost

---
 rigid_body_motion/ros/transformer.py   | 4 ++--
 rigid_body_motion/ros/visualization.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index ea5e309..a3a703b 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -503,8 +503,6 @@ class ReferenceFrameTransformBroadcaster:
         import pandas as pd
         import rospy
 
-        self.stopped = False
-
         if self.subscriber is None and self.timestamps is not None:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
@@ -547,6 +545,8 @@ class ReferenceFrameTransformBroadcaster:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        self.stopped = False
+
         if self.timestamps is None:
             self.publish()
         elif block:
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..7ee9918 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -129,8 +129,6 @@ class BaseMarkerPublisher:
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         while not rospy.is_shutdown() and not self.stopped:
             self.publish()
             rospy.sleep(self.publish_interval)
@@ -153,6 +151,8 @@ class BaseMarkerPublisher:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        self.stopped = False
+
         if block:
             self._spin_blocking()
         else:
-- 
2.43.0


From 4ce9fff9cdc068a7a6c5d3f8e51533d575aae87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 24/50] fix: path marker has at most max_points points for any
 number of samples

---
 rigid_body_motion/ros/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 7ee9918..5da1a94 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,6 +1,8 @@
 from io import BytesIO
 from threading import Thread
 
+import numpy as np
+
 from rigid_body_motion.core import _resolve_rf
 
 
@@ -208,8 +210,9 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
-        marker.points = [Point(*row) for row in self.translation[::show_every]]
+        points = np.atleast_2d(self.translation)
+        show_every = max(-(-len(points) // max_points), 1)
+        marker.points = [Point(*row) for row in points[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
 
-- 
2.43.0


From f3c8dd3a71933c0c43d61530d5289d1a00ccb516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 25/50] fix: get_marker respects marker type 0

---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 5da1a94..8627502 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -65,7 +65,7 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
     if isinstance(scale, float):
-- 
2.43.0


From a4c5f53479d91e3d307c328cdff9afb02d384c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 26/50] fix: RosbagReader.export accepts str paths

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..8169e76 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From 76fd1940201723a5e3b3e09c5a52ff10b87dc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 27/50] fix: timestamps with resolutions other than ns are
 written to rosbag correctly

---
 rigid_body_motion/ros/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 8169e76..9466cf2 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -355,7 +355,8 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps = ds[timestamps].astype("datetime64[ns]")
+            timestamps = timestamps.astype(float) / 1e9
         else:
             timestamps = ds[timestamps]
 
-- 
2.43.0


From 8bcba5436c0a96380d17dce538beddf37aae5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 28/50] fix: quaternion functions and from_rotation_matrix
 accept array_like input

---
 rigid_body_motion/reference_frames.py | 1 +
 rigid_body_motion/utils.py            | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 1f04114..c5c64b6 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -551,6 +551,7 @@ class ReferenceFrame(NodeMixin):
             The constructed reference frame.
         """
         # TODO support moving reference frame
+        mat = np.asarray(mat)
         if mat.shape != (3, 3):
             raise ValueError(
                 f"Expected mat to have shape (3, 3), got {mat.shape}"
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 8df1205..f7010f3 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -37,6 +37,8 @@ def qinv(q, qaxis=-1):
         A new array containing the inverse values.
     """
     # TODO xarray support
+    q = np.asarray(q)
+
     if q.dtype != quaternion:
         q = np.swapaxes(q, qaxis, -1)
         qi = as_float_array(1 / as_quat_array(q))
@@ -68,6 +70,8 @@ def qmul(*q, qaxis=-1):
     if len(q) < 2:
         raise ValueError("Please provide at least 2 quaternions to multiply")
 
+    q = tuple(np.asarray(qq) for qq in q)
+
     if all(qq.dtype != quaternion for qq in q):
         q = (as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q)
         qm = reduce(operator.mul, q, 1)
@@ -107,6 +111,8 @@ def qmean(q, axis=None, qaxis=-1):
         A new array containing the mean values.
     """
     # TODO xarray support
+    q = np.asarray(q)
+
     if q.dtype != quaternion:
         q = np.swapaxes(q, qaxis, -1)
         was_quaternion = False
@@ -163,6 +169,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
         A new array containing the interpolated values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     axis = axis % q.ndim
     t_in = np.array(t_in).astype(float)
     t_out = np.array(t_out).astype(float)
-- 
2.43.0


From 05872f2d3498c8401b2d488eb09640790a182c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 29/50] fix: quaternion arrays without common timestamps keep
 their dimensions when transformed

---
 rigid_body_motion/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 21bb84d..8a1a53b 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -95,6 +95,9 @@ class TransformMatcher:
                 return np.tile(array.data, (len(timestamps), 1))
         elif np.array_equal(array.timestamps, timestamps):
             return array.data
+        elif len(timestamps) == 0:
+            # squad drops all but the first axis in this case
+            return array.data[:0]
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From f2c4bca43530bda40303519538c2fb78605c61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 30/50] fix: qinterp onto no timestamps keeps the array's
 dimensions

---
 rigid_body_motion/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index f7010f3..513d503 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -193,6 +193,9 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
             "Error using SQUAD with multi-dimensional array, please upgrade "
             "the quaternion package to the latest version"
         )
+    if t_out.size == 0:
+        # squad drops all but the first axis in this case
+        qi = q[:0]
     qi = np.swapaxes(qi, 0, axis)
 
     if was_quaternion:
-- 
2.43.0


From 6f65301a0ca73dad97d2b44ced798036ed6ff780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 31/50] fix: transformed DataArrays resample coordinates for
 any datetime resolution and empty ranges

---
 rigid_body_motion/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8a1a53b..d6bb0a6 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -500,9 +500,15 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
             coords[time_dim] != ts_out
         ):
             # interpolate if timestamps after transform have changed
+            if np.issubdtype(coords[time_dim].dtype, np.datetime64):
+                # interp can't deal with different datetime resolutions
+                ts_out = np.asarray(ts_out).astype(coords[time_dim].dtype)
             for c in coords:
                 if time_dim in coords[c].dims and c != time_dim:
-                    if np.issubdtype(coords[c].dtype, np.number):
+                    if len(ts_out) == 0:
+                        # interp needs at least one timestamp
+                        coords[c] = coords[c].isel({time_dim: slice(0)})
+                    elif np.issubdtype(coords[c].dtype, np.number):
                         coords[c] = coords[c].interp({time_dim: ts_out})
                     else:
                         coords[c] = coords[c].sel(
-- 
2.43.0


From 753f34234378d2255e0fb1e6e094b69e4fd1fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 32/50] fix: qinterp with timestamps of different datetime
 resolutions

---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 513d503..fa101fe 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _as_timestamps, _resolve_axis
 
 
 def qinv(q, qaxis=-1):
@@ -171,8 +171,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     # TODO xarray support
     q = np.asarray(q)
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _as_timestamps(t_in).astype(float)
+    t_out = _as_timestamps(t_out).astype(float)
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 3a03315a516d65183a9246c67db150c56f9a4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 33/50] fix: rotation vectors for angular velocity are
 independent of quaternion sign flips

---
 rigid_body_motion/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index d6bb0a6..1d75035 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -798,7 +798,9 @@ def _estimate_angular_velocity(
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-        rv = as_rotation_vector(as_quat_array(r))
+        rv = as_rotation_vector(
+            unflip_rotors(as_quat_array(r), axis=time_axis)
+        )
         angular = np.gradient(rv, timestamps, axis=time_axis)
     else:
         raise ValueError(
@@ -806,10 +808,10 @@ def _estimate_angular_velocity(
         )
 
     if outlier_thresh is not None:
-        dr = np.linalg.norm(
-            np.diff(as_rotation_vector(as_quat_array(r)), n=2, axis=time_axis),
-            axis=-1,
+        rv = as_rotation_vector(
+            unflip_rotors(as_quat_array(r), axis=time_axis)
         )
+        dr = np.linalg.norm(np.diff(rv, n=2, axis=time_axis), axis=-1)
         dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
         angular = interp1d(
             timestamps[dr <= outlier_thresh],
-- 
2.43.0


From ece93735880fe7091ae0baaf3f8cbaf959855d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 34/50] fix: qmean with a non-negative quaternion axis when
 axes are averaged away

---
 rigid_body_motion/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index fa101fe..cf4517e 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -114,6 +114,7 @@ def qmean(q, axis=None, qaxis=-1):
     q = np.asarray(q)
 
     if q.dtype != quaternion:
+        qaxis = qaxis % q.ndim
         q = np.swapaxes(q, qaxis, -1)
         was_quaternion = False
     else:
@@ -137,7 +138,8 @@ def qmean(q, axis=None, qaxis=-1):
     if was_quaternion:
         return as_quat_array(qm)
     else:
-        return np.swapaxes(qm, -1, qaxis)
+        # the result has fewer axes than the input
+        return np.swapaxes(qm, -1, min(qaxis, qm.ndim - 1))
 
 
 def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
-- 
2.43.0


From f24ffbabc18a574453817927e51edd4a2132a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 35/50] fix: accessor qinterp resamples coordinates for any
 datetime resolution and onto no timestamps

---
 rigid_body_motion/accessors.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/accessors.py b/rigid_body_motion/accessors.py
index ed9b5b3..0a4299a 100644
--- a/rigid_body_motion/accessors.py
+++ b/rigid_body_motion/accessors.py
@@ -2,6 +2,7 @@ import numpy as np
 import xarray as xr
 from xarray.core.utils import either_dict_or_kwargs
 
+from .core import _as_timestamps
 from .utils import qinterp, qinv
 
 
@@ -81,14 +82,21 @@ class DataArrayAccessor:
         # update coords either by interpolating or selecting nearest for
         # non-numerical coords
         coords_out = dict(self._obj.coords)
+        # interp can't deal with different datetime resolutions
+        coords_in = {interp_dim: _as_timestamps(t_in)}
+        coords = {interp_dim: _as_timestamps(t_out)}
         for c in coords_out:
             if c == interp_dim:
                 coords_out[c] = t_out
             elif interp_dim in coords_out[c].dims:
-                if np.issubdtype(coords_out[c].dtype, np.number):
-                    coords_out[c] = coords_out[c].interp(coords)
+                coord = coords_out[c].assign_coords(coords_in)
+                if len(t_out) == 0:
+                    # interp needs at least one sampling point
+                    coords_out[c] = coord.isel({interp_dim: slice(0)})
+                elif np.issubdtype(coord.dtype, np.number):
+                    coords_out[c] = coord.interp(coords)
                 else:
-                    coords_out[c] = coords_out[c].sel(coords, method="nearest")
+                    coords_out[c] = coord.sel(coords, method="nearest")
 
         interpolated = xr.DataArray(
             arr_out,
-- 
2.43.0


From fdeee14737a2177e9f546586c281ef3e5920d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 36/50] fix: missing Euler angles are not converted to identity
 rotations

---
 rigid_body_motion/utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index cf4517e..d6c340b 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -8,7 +8,6 @@ import numpy as np
 from quaternion import (
     as_float_array,
     as_quat_array,
-    from_rotation_vector,
     quaternion,
 )
 from quaternion import rotate_vectors as quat_rv
@@ -275,6 +274,15 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     return vr
 
 
+def _axis_rotation(angle, axis):
+    """Quaternions of rotations about a coordinate axis, NaN if missing."""
+    angle = angle.astype(float)
+    q = np.zeros(angle.shape + (4,))
+    q[..., 0] = np.cos(angle / 2)
+    q[..., axis + 1] = np.sin(angle / 2)
+    return as_quat_array(q)
+
+
 def from_euler_angles(
     rpy=None,
     roll=None,
@@ -336,9 +344,7 @@ def from_euler_angles(
     if roll is not None:
         roll = np.asarray(roll)
         shape = roll.shape
-        roll = from_rotation_vector(
-            np.stack((roll, np.zeros(shape), np.zeros(shape)), axis=-1)
-        )
+        roll = _axis_rotation(roll, 0)
 
     if pitch is not None:
         pitch = np.asarray(pitch)
@@ -349,9 +355,7 @@ def from_euler_angles(
                 f"Inconsistent shape for pitch argument: expected {shape}, "
                 f"got {pitch.shape}"
             )
-        pitch = from_rotation_vector(
-            np.stack((np.zeros(shape), pitch, np.zeros(shape)), axis=-1)
-        )
+        pitch = _axis_rotation(pitch, 1)
 
     if yaw is not None:
         yaw = np.asarray(yaw)
@@ -362,9 +366,7 @@ def from_euler_angles(
                 f"Inconsistent shape for yaw argument: expected {shape}, "
                 f"got {yaw.shape}"
             )
-        yaw = from_rotation_vector(
-            np.stack((np.zeros(shape), np.zeros(shape), yaw), axis=-1)
-        )
+        yaw = _axis_rotation(yaw, 2)
 
     if shape is None:
         raise ValueError(
-- 
2.43.0


From 8f7e2c173a429d7ae013b437e2f133750d2dbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 37/50] fix: backward button of play_publisher works at the
 last index

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 61e11981ef36344487272e7fa00d9633dd98d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 38/50] fix: play_publisher accepts array_like timestamps with
 any datetime resolution

---
 rigid_body_motion/ros/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..5892c25 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -87,8 +87,9 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from ipywidgets import widgets
 
     if timestamps is None:
-        timestamps = np.asarray(publisher.timestamps)
+        timestamps = publisher.timestamps
 
+    timestamps = np.asarray(timestamps).astype("datetime64[ns]")
     interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
 
     # position bar
-- 
2.43.0


From bda8587082572090b8539d68c832d14b93059edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 39/50] fix: rotation vectors for angular velocity are
 independent of the overall quaternion sign

---
 rigid_body_motion/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 1d75035..06220e6 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -754,6 +754,16 @@ def _make_velocity_dataarray(
     return da
 
 
+def _as_continuous_rotation_vector(q, time_axis=0):
+    """Convert quaternions to rotation vectors that are continuous in time."""
+    # q and -q are the same rotation, signs must be continuous over time
+    q = unflip_rotors(q, axis=time_axis)
+    # rotation vectors are singular for -1, choose overall sign closest to 1
+    w = np.nansum(as_float_array(q)[..., 0], axis=time_axis, keepdims=True)
+
+    return as_rotation_vector(np.where(w < 0, -q, q))
+
+
 def _estimate_angular_velocity(
     rotation,
     timestamps,
@@ -798,9 +808,7 @@ def _estimate_angular_velocity(
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-        rv = as_rotation_vector(
-            unflip_rotors(as_quat_array(r), axis=time_axis)
-        )
+        rv = _as_continuous_rotation_vector(as_quat_array(r), time_axis)
         angular = np.gradient(rv, timestamps, axis=time_axis)
     else:
         raise ValueError(
@@ -808,9 +816,7 @@ def _estimate_angular_velocity(
         )
 
     if outlier_thresh is not None:
-        rv = as_rotation_vector(
-            unflip_rotors(as_quat_array(r), axis=time_axis)
-        )
+        rv = _as_continuous_rotation_vector(as_quat_array(r), time_axis)
         dr = np.linalg.norm(np.diff(rv, n=2, axis=time_axis), axis=-1)
         dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
         angular = interp1d(
-- 
2.43.0


From c8a1726cbbf5efffdea6b621e750b4e2aff02c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 40/50] fix: quaternion functions reject arrays whose
 quaternion axis does not have length 4

---
 rigid_body_motion/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index d6c340b..fd09bc3 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -16,6 +16,15 @@ from quaternion import squad
 from rigid_body_motion.core import _as_timestamps, _resolve_axis
 
 
+def _check_qaxis(q, qaxis):
+    """Check that the axis of a float array represents quaternions."""
+    if q.shape[qaxis] != 4:
+        raise ValueError(
+            f"Expected axis {qaxis} of q to have length 4, got "
+            f"{q.shape[qaxis]}"
+        )
+
+
 def qinv(q, qaxis=-1):
     """Quaternion inverse.
 
@@ -39,6 +48,7 @@ def qinv(q, qaxis=-1):
     q = np.asarray(q)
 
     if q.dtype != quaternion:
+        _check_qaxis(q, qaxis)
         q = np.swapaxes(q, qaxis, -1)
         qi = as_float_array(1 / as_quat_array(q))
         return np.swapaxes(qi, -1, qaxis)
@@ -72,6 +82,8 @@ def qmul(*q, qaxis=-1):
     q = tuple(np.asarray(qq) for qq in q)
 
     if all(qq.dtype != quaternion for qq in q):
+        for qq in q:
+            _check_qaxis(qq, qaxis)
         q = (as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q)
         qm = reduce(operator.mul, q, 1)
         return np.swapaxes(as_float_array(qm), -1, qaxis)
@@ -113,6 +125,7 @@ def qmean(q, axis=None, qaxis=-1):
     q = np.asarray(q)
 
     if q.dtype != quaternion:
+        _check_qaxis(q, qaxis)
         qaxis = qaxis % q.ndim
         q = np.swapaxes(q, qaxis, -1)
         was_quaternion = False
@@ -176,6 +189,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     t_out = _as_timestamps(t_out).astype(float)
 
     if q.dtype != quaternion:
+        _check_qaxis(q, qaxis)
         qaxis = qaxis % q.ndim
         # fix axis if it's the last axis of the array and will be swapped with
         # axis when converting to quaternion dtype
@@ -242,6 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
+        _check_qaxis(q, qaxis)
         q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
-- 
2.43.0


From 866245292edde5fbd8bc6e118319722bc71b9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 41/50] fix: from_euler_angles rejects wrongly shaped rpy
 arrays and orders

---
 rigid_body_motion/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index fd09bc3..acbf1a4 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -348,7 +348,13 @@ def from_euler_angles(
             raise ValueError(
                 "Cannot specify roll, pitch or yaw when rpy is provided"
             )
-        rpy = np.swapaxes(np.asarray(rpy), axis, -1)
+        rpy = np.asarray(rpy)
+        if rpy.shape[axis] != 3:
+            raise ValueError(
+                f"Expected axis {axis} of rpy to have length 3, got "
+                f"{rpy.shape[axis]}"
+            )
+        rpy = np.swapaxes(rpy, axis, -1)
         roll = rpy[..., 0]
         pitch = rpy[..., 1]
         yaw = rpy[..., 2]
@@ -389,15 +395,14 @@ def from_euler_angles(
         )
 
     # rearrange rotors according to order
-    rotors = [None] * 3
-    try:
-        rotors[order.index("r")] = roll
-        rotors[order.index("p")] = pitch
-        rotors[order.index("y")] = yaw
-    except (ValueError, IndexError):
+    if sorted(order) != ["p", "r", "y"]:
         raise ValueError(
             f"order must be a permutation of 'r', 'p' and 'y', got {order}"
         )
+    rotors = [None] * 3
+    rotors[order.index("r")] = roll
+    rotors[order.index("p")] = pitch
+    rotors[order.index("y")] = yaw
 
     # chain rotors
     q = quaternion(1, 0, 0, 0)
-- 
2.43.0


From f6867e0995f7e1f6a30973b07c2be0626d160808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 42/50] fix: twist messages carry the stamp of their sample

---
 rigid_body_motion/ros/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index a3a703b..127e32a 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -478,7 +478,10 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx],
+                    self.angular[idx],
+                    self.frame.name,
+                    ts,
                 )
             )
 
-- 
2.43.0


From 85c0f7dd6924de228e8301be855b71cd3e773762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 43/50] fix: missing samples do not break the sign continuity
 of rotation vectors

---
 rigid_body_motion/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 06220e6..c065d09 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -756,8 +756,15 @@ def _make_velocity_dataarray(
 
 def _as_continuous_rotation_vector(q, time_axis=0):
     """Convert quaternions to rotation vectors that are continuous in time."""
-    # q and -q are the same rotation, signs must be continuous over time
-    q = unflip_rotors(q, axis=time_axis)
+    # q and -q are the same rotation, signs must be continuous over time, also
+    # across missing samples which are replaced by the last valid one for this
+    idx = np.arange(q.shape[time_axis])
+    idx = idx.reshape([-1] + [1] * (q.ndim - 1 - time_axis % q.ndim))
+    idx = np.maximum.accumulate(np.where(np.isnan(q), 0, idx), time_axis)
+    filled = unflip_rotors(
+        np.take_along_axis(q, idx, time_axis), axis=time_axis
+    )
+    q = np.where(np.isnan(q), q, filled)
     # rotation vectors are singular for -1, choose overall sign closest to 1
     w = np.nansum(as_float_array(q)[..., 0], axis=time_axis, keepdims=True)
 
-- 
2.43.0


From 9c290800e4ad209e4319d2ae1e61ff227dd9c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 44/50] fix: overflow of integer vectors in
 shortest_arc_rotation and best_fit_rotation

---
 rigid_body_motion/estimators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 12c12e3..354e1e7 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -30,9 +30,9 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     if v1.ndim < 2:
         raise ValueError("v1 must have at least two dimensions")
 
-    # flatten everything except spatial dimension
-    v1 = np.swapaxes(v1, axis, -1).reshape(-1, 3)
-    v2 = np.swapaxes(v2, axis, -1).reshape(-1, 3)
+    # flatten everything except spatial dimension, integers would overflow
+    v1 = np.swapaxes(v1, axis, -1).reshape(-1, 3).astype(float)
+    v2 = np.swapaxes(v2, axis, -1).reshape(-1, 3).astype(float)
 
     if same_shape and v1.shape != v2.shape:
         raise ValueError("v1 and v2 must have the same shape")
@@ -265,8 +265,9 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v1 = np.asarray(v1)
-    v2 = np.asarray(v2)
+    # integer products would overflow
+    v1 = np.asarray(v1, dtype=float)
+    v2 = np.asarray(v2, dtype=float)
 
     sn1 = np.sum(v1**2, axis=axis, keepdims=True)
     sn2 = np.sum(v2**2, axis=axis, keepdims=True)
-- 
2.43.0


From 8765e63ffd935af24ad8faec3ca26f237ecbed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 45/50] fix: overflow of integer quaternions in qmean

---
 rigid_body_motion/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index acbf1a4..144e5ef 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -135,8 +135,8 @@ def qmean(q, axis=None, qaxis=-1):
 
     axis = _resolve_axis(axis, q.ndim - 1)
 
-    # compute outer product of quaternion elements
-    q = q[..., np.newaxis]
+    # compute outer product of quaternion elements, integers would overflow
+    q = q[..., np.newaxis].astype(float)
     qt = np.swapaxes(q, -2, -1)
     A = np.mean(q * qt, axis=axis)
 
-- 
2.43.0


From 13bd1697a9f219518e4fa8b788efe12f751c79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 46/50] fix: outlier threshold wraps around for unsigned
 integer translations

---
 rigid_body_motion/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index c065d09..cdc38d5 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -860,8 +860,10 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
+        # differences of unsigned integers would wrap around
         dt = np.linalg.norm(
-            np.diff(translation, n=2, axis=time_axis), axis=axis
+            np.diff(np.asarray(translation, dtype=float), n=2, axis=time_axis),
+            axis=axis,
         )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
-- 
2.43.0


From 7146a2845317e8de597a105d9bfbd691619ecff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 47/50] fix: reduced precision of coordinate transformations
 for small integer types

---
 rigid_body_motion/coordinate_systems.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 1475e9f..b849c77 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -3,6 +3,13 @@
 import numpy as np
 
 
+def _as_floating(arr):
+    """Convert to array, with integers as float because of their precision."""
+    arr = np.asarray(arr)
+
+    return arr if np.issubdtype(arr.dtype, np.inexact) else arr.astype(float)
+
+
 def cartesian_to_polar(arr, axis=-1):
     """Transform cartesian to polar coordinates in two dimensions.
 
@@ -19,7 +26,7 @@ def cartesian_to_polar(arr, axis=-1):
     arr_polar : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_floating(arr)
 
     if arr.shape[axis] != 2:
         raise ValueError(
@@ -48,7 +55,7 @@ def polar_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_floating(arr)
 
     if arr.shape[axis] != 2:
         raise ValueError(
@@ -79,7 +86,7 @@ def cartesian_to_spherical(arr, axis=-1):
     arr_spherical : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_floating(arr)
 
     if arr.shape[axis] != 3:
         raise ValueError(
@@ -114,7 +121,7 @@ def spherical_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
-    arr = np.asarray(arr)
+    arr = _as_floating(arr)
 
     if arr.shape[axis] != 3:
         raise ValueError(
-- 
2.43.0


From 38e180c8c5add9b5d63fc1a117fe26c73efc67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 48/50] fix: large values lost in netCDF export of rosbags

---
 rigid_body_motion/ros/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 9466cf2..0c5466b 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -56,9 +56,15 @@ class RosbagReader:
             "_FillValue": np.iinfo(dtype).min,
         }
 
+        # values that exceed the range of the data type aren't quantized
+        v_max = comp["scale_factor"] * np.iinfo(dtype).max
+
         encoding = {}
         for v in ds.data_vars:
-            encoding[v] = comp
+            if np.any(np.abs(ds[v].values) > v_max):
+                encoding[v] = {"zlib": True}
+            else:
+                encoding[v] = comp
 
         ds.to_netcdf(filename, encoding=encoding)
 
-- 
2.43.0


From bccf44b36cd731ce8e97ae2f95d35b1e90e78cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 49/50] fix: scalar scale of markers only accepted as float

---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 8627502..b7f3649 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -68,7 +68,7 @@ def get_marker(
     marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
-    if isinstance(scale, float):
+    if np.ndim(scale) == 0:
         marker.scale = Vector3(scale, scale, scale)
     else:
         marker.scale = Vector3(*scale)
-- 
2.43.0


From 5e4b88057699bf1d37746aeda1a10a676d2274d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:49 +0000
Subject: [PATCH 50/50] fix: export transform_coordinates with the other public
 functions

---
 rigid_body_motion/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rigid_body_motion/__init__.py b/rigid_body_motion/__init__.py
index 8f721aa..e5f17ee 100644
--- a/rigid_body_motion/__init__.py
+++ b/rigid_body_motion/__init__.py
@@ -61,6 +61,7 @@ __all__ = [
     "transform_angular_velocity",
     "transform_linear_velocity",
     # coordinate system transforms
+    "transform_coordinates",
     "cartesian_to_polar",
     "polar_to_cartesian",
     "cartesian_to_spherical",
-- 
2.43.0


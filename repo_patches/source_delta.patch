From 9040500c93d3f2c8af8ac2a76aee6be746825c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/28] fix: rotate_vectors scales vectors for non-unit
 quaternions

The array path divided by the norm of the quaternion instead of its square,
so it disagreed with the scalar path (and wasn't a rotation) unless all
quaternions were normalized.
---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..aa063cd 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From e7880902c2404be2386920deca0fcaedabfa88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 02/28] fix: rotate_vectors mixes up axes of multi-dimensional
 arrays

The quaternion components were swapped with (instead of moved to) the spatial
axis, which permutes the remaining axes whenever the spatial axis is not one
of the last two.
---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index aa063cd..b522575 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -231,7 +231,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From acfba80974dcc752b3882e6bf26b0ada269fae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 03/28] fix: qmean returns wrong eigenvector

The index used to select the eigenvector picked (permuted) components of the
first eigenvector rather than the eigenvector of the largest eigenvalue, so
the result was in general not the mean quaternion.
---
 rigid_body_motion/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index b522575..b35a109 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -121,12 +121,10 @@ def qmean(q, axis=None, qaxis=-1):
     qt = np.swapaxes(q, -2, -1)
     A = np.mean(q * qt, axis=axis)
 
-    # compute largest eigenvector of A
-    l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
-
-    qm = np.real(v)
+    # compute eigenvector for largest eigenvalue of A (eigenvalues are in
+    # ascending order)
+    _, v = np.linalg.eigh(A)
+    qm = v[..., -1]
 
     if was_quaternion:
         return as_quat_array(qm)
-- 
2.43.0


From fb73ba20e5c91911ab5e43b4ea6ef6904f479919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/28] fix: from_euler_angles accepts order strings that are
 not permutations

Orders such as 'rpyr' passed the check and were silently interpreted as 'rpy'.
---
 rigid_body_motion/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index b35a109..f0fbf4f 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -358,15 +358,14 @@ def from_euler_angles(
         )
 
     # rearrange rotors according to order
-    rotors = [None] * 3
-    try:
-        rotors[order.index("r")] = roll
-        rotors[order.index("p")] = pitch
-        rotors[order.index("y")] = yaw
-    except (ValueError, IndexError):
+    if sorted(order) != ["p", "r", "y"]:
         raise ValueError(
             f"order must be a permutation of 'r', 'p' and 'y', got {order}"
         )
+    rotors = [None] * 3
+    rotors[order.index("r")] = roll
+    rotors[order.index("p")] = pitch
+    rotors[order.index("y")] = yaw
 
     # chain rotors
     q = quaternion(1, 0, 0, 0)
-- 
2.43.0


From 6260772d60f02d93f6a62dd4506ef909274de475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 05/28] fix: axis=0 is treated as axis=-1

_maybe_unpack_dataarray replaced every falsy axis by the default, so arrays
whose first axis is the spatial one were transformed along the wrong axis.
timestamps=False is now also handled for plain arrays, so that functions that
don't use timestamps can be called with axis=0.
---
 rigid_body_motion/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..4d08cc3 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,8 +395,10 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        if timestamps is False:
+            timestamps = None
         time_dim = None
         coords = None
         dims = None
@@ -410,7 +412,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
-- 
2.43.0


From a7a537512a194f8c7fd1e17f3526dc6fe5c34a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 06/28] fix: vector estimators require a time dimension for
 DataArrays

shortest_arc_rotation and the best-fit estimators don't use timestamps but
still tried to infer them from the first dimension, raising errors if this was
the spatial dimension or had no coordinate.
---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..2fb18a3 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From 8fa0137e90b93c71ecb6664c91811fb2489196a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/28] fix: shortest_arc_rotation returns NaN for opposite
 vectors

If v2 points in the opposite direction of v1 the unnormalized quaternion is
zero. Rotate by pi around an axis perpendicular to v1 in this case.
---
 rigid_body_motion/estimators.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 2fb18a3..4def533 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -271,7 +271,26 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     sn2 = np.sum(v2**2, axis=axis, keepdims=True)
     d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
     c12 = np.cross(v1, v2, axis=axis)
-    rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
+    n12 = np.sqrt(sn1 * sn2)
+    rotation = np.concatenate((n12 + d12, c12), axis=axis)
+    norm = np.linalg.norm(rotation, axis=axis, keepdims=True)
+
+    # vectors that point in opposite directions don't have a unique shortest
+    # arc, in this case rotate by pi around any axis perpendicular to v1
+    opposite = norm <= 1e-12 * n12
+    x, y, z = (np.take(v1, [i], axis=axis) for i in range(3))
+    x_larger = np.abs(x) > np.abs(z)
+    zeros = np.zeros(np.shape(x))
+    perpendicular = np.concatenate(
+        (
+            zeros,
+            np.where(x_larger, -y, zeros),
+            np.where(x_larger, x, -z),
+            np.where(x_larger, zeros, y),
+        ),
+        axis=axis,
+    )
+    rotation = np.where(opposite, perpendicular, rotation)
     rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
 
     if coords is not None:
-- 
2.43.0


From 3e80f056b9c34ebd694a65f8ab84df061a4468e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/28] fix: best_fit_rotation doesn't handle reflections

As in best_fit_transform, the orthogonal matrix computed from the SVD can be a
reflection (e.g. for coplanar or noisy vectors), which was then converted to
a wrong quaternion.
---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 4def533..bb5e487 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -343,6 +343,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 406f231c7953842facd0ece334ab048299583b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/28] fix: cartesian_to_spherical returns NaN at the origin

The polar angle was computed from 0 / 0 for zero vectors, which then couldn't
be transformed back to cartesian coordinates.
---
 rigid_body_motion/coordinate_systems.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..0d431e0 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -82,7 +82,10 @@ def cartesian_to_spherical(arr, axis=-1):
         )
 
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
+    theta = np.arctan2(
+        np.hypot(np.take(arr, 0, axis=axis), np.take(arr, 1, axis=axis)),
+        np.take(arr, 2, axis=axis),
+    )
     phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
     return np.stack((r, theta, phi), axis=axis)
 
-- 
2.43.0


From 98814c64820d84c7f33b652920c8b757f528d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 10/28] fix: failed frame construction or registration modifies
 the tree

When an argument of ReferenceFrame or register_frame was invalid (or the name
was already taken), the new frame had already been attached to its parent and
remained there as a child although an error was raised.
---
 rigid_body_motion/reference_frames.py | 32 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..7d982c2 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -15,19 +15,23 @@ from rigid_body_motion.utils import qinv, rotate_vectors
 _registry = {}
 
 
+def _check_name(name, update=False):
+    """Check if a reference frame can be registered under a name."""
+    if name is None:
+        raise ValueError("Reference frame name cannot be None.")
+    if name in _registry and not update:
+        raise ValueError(
+            f"Reference frame with name {name} is already registered. "
+            f"Specify update=True to overwrite."
+        )
+
+
 def _register(rf, update=False):
     """Register a reference frame."""
-    if rf.name is None:
-        raise ValueError("Reference frame name cannot be None.")
+    _check_name(rf.name, update=update)
     if rf.name in _registry:
-        if update:
-            # TODO keep children?
-            _registry[rf.name].parent = None
-        else:
-            raise ValueError(
-                f"Reference frame with name {rf.name} is already registered. "
-                f"Specify update=True to overwrite."
-            )
+        # TODO keep children?
+        _registry[rf.name].parent = None
     # TODO check if name is a cs transform?
     _registry[rf.name] = rf
 
@@ -103,6 +107,7 @@ def register_frame(
         registry.
     """
     # TODO make this a class with __call__, from_dataset etc. methods?
+    _check_name(name, update=update)
     rf = ReferenceFrame(
         name,
         parent=parent,
@@ -183,15 +188,16 @@ class ReferenceFrame(NodeMixin):
         # TODO check name requirement
         self.name = name
 
+        # the parent is set only after all arguments have been validated so
+        # that the tree isn't modified if an error is raised
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -200,6 +206,8 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From a43da6ddbb88728d46bdf841d7d5148aaa0febac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 11/28] fix: re-registering a frame detaches it from its parent

Calling register(update=True) on a frame that is already registered removed
its own parent.
---
 rigid_body_motion/reference_frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 7d982c2..d9af957 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -29,7 +29,7 @@ def _check_name(name, update=False):
 def _register(rf, update=False):
     """Register a reference frame."""
     _check_name(rf.name, update=update)
-    if rf.name in _registry:
+    if rf.name in _registry and _registry[rf.name] is not rf:
         # TODO keep children?
         _registry[rf.name].parent = None
     # TODO check if name is a cs transform?
-- 
2.43.0


From 1971f322804b581a2fbae956d0b6a6ef5c01593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 12/28] fix: transforms fail or give wrong results for
 non-default axes

The swap of the time axis was undone even if it hadn't been performed (arrays
without timestamps and time_axis != 0), and resampling, quaternion detection
and the addition of the translation assumed the spatial axis to be the last
one. Swap the spatial axis to the end before matching and restore the layout
afterwards.
---
 rigid_body_motion/reference_frames.py | 46 +++++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index d9af957..42b8759 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -298,6 +298,26 @@ class ReferenceFrame(NodeMixin):
 
         return arr, timestamps
 
+    @classmethod
+    def _swap_spatial_axis(cls, arr, axis, time_axis, timestamps):
+        """Swap the spatial axis of a validated array with the last axis."""
+        # the spatial axis has moved if it was swapped with the time axis
+        if timestamps is not None and axis % arr.ndim == 0:
+            axis = time_axis
+        # use negative axis in case the array gets an additional time axis
+        axis = axis % arr.ndim - arr.ndim
+
+        return np.swapaxes(arr, axis, -1), axis
+
+    @classmethod
+    def _restore_axes(cls, arr, axis, time_axis, timestamps):
+        """Undo swapping of the spatial axis and the time axis."""
+        arr = np.swapaxes(arr, axis, -1)
+        if timestamps is not None:
+            arr = np.swapaxes(arr, 0, time_axis)
+
+        return arr
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -640,16 +660,16 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._swap_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis swaps
+        arr = self._restore_axes(arr, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
@@ -701,18 +721,18 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._swap_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis swaps
+        arr = self._restore_axes(arr, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
@@ -765,18 +785,16 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
+        arr, axis = self._swap_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis swaps
+        arr = self._restore_axes(arr, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
-- 
2.43.0


From ae50abf8bc5f205cb654b397b80316000138f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 13/28] fix: velocity transforms only support the default array
 layout

The estimated velocities were added along the first and last axis regardless
of axis and time_axis.
---
 rigid_body_motion/reference_frames.py | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 42b8759..44d74e7 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -897,19 +897,19 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._swap_spatial_axis(arr, axis, time_axis, arr_ts)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+
+        # undo axis swaps
+        arr = self._restore_axes(arr, axis, time_axis, arr_ts)
 
         if return_timestamps:
             return arr, ts_out
@@ -1041,13 +1041,10 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._swap_spatial_axis(arr, axis, time_axis, arr_ts)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1064,7 +1061,11 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        linear = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(linear, arr.ndim)
+
+        # undo axis swaps
+        arr = self._restore_axes(arr, axis, time_axis, arr_ts)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 3c63ebde163708280d7f19c911044ec1612722fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 14/28] fix: datetime timestamps are assumed to have nanosecond
 resolution

Velocities were off by the ratio of the units for any other resolution, and
frames and arrays with different resolutions couldn't be matched.
---
 rigid_body_motion/core.py  | 30 ++++++++++++++++++++----------
 rigid_body_motion/utils.py |  6 +++---
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 4d08cc3..86ce038 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,14 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps"))
 
 
+def _timestamps_to_float(timestamps):
+    """Convert timestamps to float, datetimes are converted to nanoseconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps.astype(float)
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -65,13 +73,15 @@ class TransformMatcher:
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
-                frame.timestamps.astype(float), frame.translation, axis=0
-            )(timestamps.astype(float))
+                _timestamps_to_float(frame.timestamps),
+                frame.translation,
+                axis=0,
+            )(_timestamps_to_float(timestamps))
             rotation = as_float_array(
                 squad(
                     as_quat_array(frame.rotation),
-                    frame.timestamps.astype(float),
-                    timestamps.astype(float),
+                    _timestamps_to_float(frame.timestamps),
+                    _timestamps_to_float(timestamps),
                 )
             )
 
@@ -94,15 +104,15 @@ class TransformMatcher:
                 return as_float_array(
                     squad(
                         as_quat_array(array.data),
-                        array.timestamps.astype(float),
-                        timestamps.astype(float),
+                        _timestamps_to_float(array.timestamps),
+                        _timestamps_to_float(timestamps),
                     )
                 )
             else:
                 # TODO method + optional scipy dependency?
                 return interp1d(
-                    array.timestamps.astype(float), array.data, axis=0
-                )(timestamps.astype(float))
+                    _timestamps_to_float(array.timestamps), array.data, axis=0
+                )(_timestamps_to_float(timestamps))
 
     def add_reference_frame(self, frame, inverse=False):
         """Add a reference frame to the matcher.
@@ -738,7 +748,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -801,7 +811,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index f0fbf4f..f777839 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _resolve_axis, _timestamps_to_float
 
 
 def qinv(q, qaxis=-1):
@@ -162,8 +162,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _timestamps_to_float(np.array(t_in))
+    t_out = _timestamps_to_float(np.array(t_out))
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From f4bd8d87228cad1c387ffcec9dcf592118a09663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 15/28] fix: z limits of reference frame plot are applied to
 the y axis

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From dc0dbd3914b922ab9f4852b15460ac2e030b7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 16/28] fix: broadcaster ignores idx=0

publish(0) published the transform for the current index of the broadcaster.
---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..973d93c 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -453,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = self.timestamps.values[idx].astype(float) / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From ad0e2a0a6c304cd6a63676980bf82719eed963cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 17/28] fix: broadcaster fails on incoming messages with recent
 pandas versions

The method argument of Index.get_loc has been removed in pandas 2.0.
---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 973d93c..ea5e309 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -493,7 +493,7 @@ class ReferenceFrameTransformBroadcaster:
                     ts = pd.to_datetime(
                         rospy.Time.to_sec(transform.header.stamp), unit="s"
                     )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
+                    idx = self.timestamps.get_indexer([ts], method="nearest")[0]
                     self.publish(idx)
                 else:
                     self.publish()
-- 
2.43.0


From d705a89e2bd753a2cbb1c63c1e2f7e99684c3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 18/28] fix: marker publisher fails for paths with less than
 max_points points

The slice step was zero in this case.
---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..cd6271c 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -208,7 +208,7 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
+        show_every = max(self.translation.shape[0] // max_points, 1)
         marker.points = [Point(*row) for row in self.translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
-- 
2.43.0


From 8b5ff4c600bebfd72768705a830e8eb5607d107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 19/28] fix: backward button doesn't work at the last index of
 the player

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 1276c780a07421af5466c68654d758268b9d9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 20/28] fix: fitting accepts arrays of different shapes with
 the same number of vectors

---
 rigid_body_motion/estimators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index bb5e487..d3bbbaf 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -29,14 +29,13 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
         )
     if v1.ndim < 2:
         raise ValueError("v1 must have at least two dimensions")
+    if same_shape and v1.shape != v2.shape:
+        raise ValueError("v1 and v2 must have the same shape")
 
     # flatten everything except spatial dimension
     v1 = np.swapaxes(v1, axis, -1).reshape(-1, 3)
     v2 = np.swapaxes(v2, axis, -1).reshape(-1, 3)
 
-    if same_shape and v1.shape != v2.shape:
-        raise ValueError("v1 and v2 must have the same shape")
-
     return v1, v2, coords is not None
 
 
-- 
2.43.0


From 79fbcf3f737770622e17780a1f08b06e8f7060c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 21/28] fix: keep timedelta coordinates when timestamps change

---
 rigid_body_motion/accessors.py | 2 +-
 rigid_body_motion/core.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/accessors.py b/rigid_body_motion/accessors.py
index ed9b5b3..4d88e82 100644
--- a/rigid_body_motion/accessors.py
+++ b/rigid_body_motion/accessors.py
@@ -85,7 +85,7 @@ class DataArrayAccessor:
             if c == interp_dim:
                 coords_out[c] = t_out
             elif interp_dim in coords_out[c].dims:
-                if np.issubdtype(coords_out[c].dtype, np.number):
+                if coords_out[c].dtype.kind in "iufc":
                     coords_out[c] = coords_out[c].interp(coords)
                 else:
                     coords_out[c] = coords_out[c].sel(coords, method="nearest")
diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 86ce038..6c327a4 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -491,7 +491,7 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
             # interpolate if timestamps after transform have changed
             for c in coords:
                 if time_dim in coords[c].dims and c != time_dim:
-                    if np.issubdtype(coords[c].dtype, np.number):
+                    if coords[c].dtype.kind in "iufc":
                         coords[c] = coords[c].interp({time_dim: ts_out})
                     else:
                         coords[c] = coords[c].sel(
-- 
2.43.0


From 102d93baf53547211013550958639deda68a9808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 22/28] fix: convert timestamps of any unit to seconds in ROS
 messages

Stamps of ROS messages were computed by dividing the raw timestamps by
1e9, which is only correct for datetimes in nanoseconds. Other datetime
units and timestamps in seconds ended up with wrong stamps, and the
broadcaster could not handle incoming messages for the latter.
---
 rigid_body_motion/core.py            |  8 ++++++++
 rigid_body_motion/ros/io.py          |  4 +++-
 rigid_body_motion/ros/transformer.py | 24 ++++++++++++------------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 6c327a4..58c9101 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -30,6 +30,14 @@ def _timestamps_to_float(timestamps):
     return timestamps.astype(float)
 
 
+def _timestamps_to_sec(timestamps):
+    """Convert timestamps to float, datetimes are converted to seconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return _timestamps_to_float(timestamps) / 1e9
+
+    return timestamps.astype(float)
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..cfbf3c4 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -2,6 +2,8 @@ from pathlib import Path
 
 import numpy as np
 
+from rigid_body_motion.core import _timestamps_to_sec
+
 
 class RosbagReader:
     """Reader for motion topics from rosbag files."""
@@ -355,7 +357,7 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps = _timestamps_to_sec(ds[timestamps])
         else:
             timestamps = ds[timestamps]
 
diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index ea5e309..7b421f6 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -3,7 +3,7 @@ from threading import Thread
 import numpy as np
 from anytree import PreOrderIter
 
-from rigid_body_motion.core import _resolve_rf
+from rigid_body_motion.core import _resolve_rf, _timestamps_to_sec
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
@@ -48,13 +48,12 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
                     (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
+                        _timestamps_to_sec(node.timestamps[0]),
+                        _timestamps_to_sec(node.timestamps[-1]),
                     )
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
@@ -116,7 +115,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    _timestamps_to_sec(timestamp),
                 ),
                 "default_authority",
             )
@@ -454,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = self.idx if idx is None else idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = _timestamps_to_sec(self.timestamps.values[idx])
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
@@ -490,9 +489,9 @@ class ReferenceFrameTransformBroadcaster:
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    if isinstance(self.timestamps, pd.DatetimeIndex):
+                        ts = pd.to_datetime(ts, unit="s")
                     idx = self.timestamps.get_indexer([ts], method="nearest")[0]
                     self.publish(idx)
                 else:
@@ -511,9 +510,10 @@ class ReferenceFrameTransformBroadcaster:
                 self.idx = (self.idx + 1) % len(self.timestamps)
                 if isinstance(self.timestamps, pd.DatetimeIndex):
                     dt = (
-                        self.timestamps.values[self.idx].astype(float) / 1e9
-                        - self.timestamps.values[self.idx - 1].astype(float)
-                        / 1e9
+                        _timestamps_to_sec(self.timestamps.values[self.idx])
+                        - _timestamps_to_sec(
+                            self.timestamps.values[self.idx - 1]
+                        )
                         if self.idx > 0
                         else 0.0
                     )
-- 
2.43.0


From 7f5651398300ea88cae8562f22cb7944f7468e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 23/28] fix: stamp the twist messages of the transform
 broadcaster

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 7b421f6..a6daea8 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -477,7 +477,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 319c2b646c80242864d61f37ea42ca4fc93b4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 24/28] fix: keep the previous view of axes with inverted
 limits when plotting frames

---
 rigid_body_motion/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index c805741..dec0c8f 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -63,9 +63,9 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ax.add_artist(z_arrow)
 
     # manually update axis limits
-    x_lim_old = ax.get_xlim3d()
-    y_lim_old = ax.get_ylim3d()
-    z_lim_old = ax.get_zlim3d()
+    x_lim_old = sorted(ax.get_xlim3d())
+    y_lim_old = sorted(ax.get_ylim3d())
+    z_lim_old = sorted(ax.get_zlim3d())
     x_lim_new = [
         np.min((x_lim_old[0], o[0], x[0], y[0], z[0])),
         np.max((x_lim_old[1], o[0], x[0], y[0], z[0])),
-- 
2.43.0


From 8d16ffbfb7cdbfbc892d696c5e8a65ad73f6fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 25/28] fix: make all plotted points and vector tips visible

---
 rigid_body_motion/plotting.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index dec0c8f..2cd4737 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -85,6 +85,14 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     return [x_arrow, y_arrow, z_arrow]
 
 
+def _expand_limits(ax, points):
+    """Expand 3D axis limits to contain points."""
+    for axis, values in zip("xyz", points.T):
+        values = np.append(values, getattr(ax, f"get_{axis}lim3d")())
+        values = values[np.isfinite(values)]
+        getattr(ax, f"set_{axis}lim3d")([np.min(values), np.max(values)])
+
+
 def _set_axes_equal(ax):
     """Make axes of 3D plot have equal scale.
     from https://stackoverflow.com/a/31364297
@@ -192,6 +200,7 @@ def plot_points(arr, ax=None, figsize=(6, 6), fmt="", **kwargs):
 
     lines = ax.plot(arr[:, 0], arr[:, 1], arr[:, 2], fmt, **kwargs)
 
+    _expand_limits(ax, arr)
     _set_axes_equal(ax)
 
     return lines
@@ -293,6 +302,9 @@ def plot_vectors(arr, base=None, ax=None, figsize=(6, 6), **kwargs):
         **kwargs,
     )
 
+    # automatic limits only take the base points into account
+    _expand_limits(ax, base)
+    _expand_limits(ax, base + kwargs.get("length", 1.0) * arr)
     _set_axes_equal(ax)
 
     return lines
-- 
2.43.0


From 81f20174642d1665f096aa27048bf0e51d814797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 26/28] fix: transforming arrays without timestamps between
 moving frames fails for more than one dimension

---
 rigid_body_motion/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 58c9101..f53b2ed 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -105,7 +105,9 @@ class TransformMatcher:
             if timestamps is None:
                 return array.data
             else:
-                return np.tile(array.data, (len(timestamps), 1))
+                return np.tile(
+                    array.data, (len(timestamps),) + (1,) * array.data.ndim
+                )
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From 4c3b374502c9608dbe5b49f106d20ca59e3e43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:59 +0000
Subject: [PATCH 27/28] fix: qmean fails or changes the array layout for inner
 quaternion axes

---
 rigid_body_motion/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index f777839..b21e45e 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -129,7 +129,13 @@ def qmean(q, axis=None, qaxis=-1):
     if was_quaternion:
         return as_quat_array(qm)
     else:
-        return np.swapaxes(qm, -1, qaxis)
+        # undo axis swap before removing the averaged axes
+        qm = np.expand_dims(qm, axis)
+        qm = np.swapaxes(qm, qaxis, -1)
+        qaxis = qaxis % qm.ndim
+        axis = (axis,) if isinstance(axis, int) else axis
+        axis = tuple(qm.ndim - 1 if a == qaxis else int(a) for a in axis)
+        return np.squeeze(qm, axis)
 
 
 def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
-- 
2.43.0


From bf5ab490416b37f8109366a97884d25e947c4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 28/28] fix: outlier suppression of linear velocities only
 supports the default array layout

---
 rigid_body_motion/core.py       | 13 ++++++++++---
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index f53b2ed..9f64000 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -817,7 +817,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    axis=-1,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -826,11 +831,13 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
+        dt = np.linalg.norm(
+            np.diff(translation, n=2, axis=time_axis), axis=axis
+        )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
             timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
+            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
             axis=time_axis,
             bounds_error=False,
         )(timestamps)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index d3bbbaf..e670fe3 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -131,6 +131,7 @@ def estimate_linear_velocity(
     linear = _estimate_linear_velocity(
         arr,
         timestamps,
+        axis=axis,
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
-- 
2.43.0


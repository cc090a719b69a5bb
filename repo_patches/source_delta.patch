From ca3fed80915e23d28faf04084942a4e1a6ec8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 01/22] fix: reject non-numeric dtype in Point and Curve
 constructors

The ValueError was created but never raised.
---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..7823bce 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1137,7 +1137,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From 69ee1e77ad9c6da327dab9f364416f0de23b4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 02/22] fix: IntersectionType.NONE() accepts no data instead of
 always raising

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..f31cd70 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From d0ecc6489649b6bff166cf38e54ffe1017cb1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 03/22] fix: negative curve point/segment index below -size no
 longer wraps around

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7823bce..ff1ead5 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0:
+            raise IndexError('The index is out of curve size')
 
         self._curve = curve
         self._idx = index
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From 4c006513d0efdd3f4733b5288463267bff03ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 04/22] fix: Curve.index with negative start returns a valid
 index from the curve beginning

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index ff1ead5..2bb46da 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1394,7 +1394,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         indices = np.flatnonzero(is_close)
 
         if start:
-            indices += start
+            indices += slice(start, end).indices(self.size)[0]
 
         return indices[0]
 
-- 
2.43.0


From f0318426252e24b898453e9840cda2dc5669fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 05/22] fix: chord lengths and arc parametrization of an empty
 curve are empty, not uninitialised memory

---
 skcurve/_diffgeom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..ecaadd2 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,7 +86,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
@@ -237,6 +237,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From b3584e62e84f8f190b4e909082a30a8792643672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 06/22] fix: derivatives of curves with fewer than two points
 keep the curve dimension

---
 skcurve/_diffgeom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index ecaadd2..1706716 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -137,7 +137,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -149,7 +149,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
-- 
2.43.0


From 1eb7967255825a17b768bd567a7c9c69e04eb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 07/22] fix: cached arrays of immutable curves are read-only

Writing to the array returned by a cached property (cumarclen, t, chordlen,
firstderiv, ...) silently changed the state of the immutable curve.
---
 skcurve/_base.py     |  7 ++++---
 skcurve/_diffgeom.py |  3 ++-
 skcurve/_utils.py    | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2bb46da..31a9df9 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -32,7 +32,7 @@ import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
 from skcurve._numeric import allequal, F_EPS
-from skcurve._utils import as2d
+from skcurve._utils import as2d, readonly
 
 
 Numeric = ty.Union[numbers.Number, np.number]
@@ -1606,7 +1606,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return _diffgeom.chordlen(self)
+        return readonly(_diffgeom.chordlen(self))
 
     @cached_property
     def arclen(self) -> float:
@@ -1636,7 +1636,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        return readonly(
+            np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object))
 
     def reverse(self) -> 'Curve':
         """Reverses the curve
diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 1706716..1f4d343 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -24,6 +24,7 @@ import numpy as np
 from cached_property import cached_property
 
 from skcurve._numeric import dot1d
+from skcurve._utils import readonly
 import skcurve._base
 
 if ty.TYPE_CHECKING:
@@ -210,7 +211,7 @@ def _maybe_curve_point(func):
     def wrapper(obj):
         if isinstance(obj, skcurve._base.CurvePoint):
             return getattr(obj.curve, func.__name__)[obj.idx]
-        return func(obj)
+        return readonly(func(obj))
     return wrapper
 
 
diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..8ca6cb6 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -43,3 +43,24 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     new_shape = (arr.shape[axis], np.prod(arr.shape) // arr.shape[axis])
 
     return arr.transpose(tr_axes).reshape(new_shape)
+
+
+def readonly(arr: np.ndarray) -> np.ndarray:
+    """Makes the array read-only and returns it
+
+    It protects the cached arrays of immutable objects from changing.
+
+    Parameters
+    ----------
+    arr : np.ndarray
+        The array
+
+    Returns
+    -------
+    arr : np.ndarray
+        The same read-only array
+
+    """
+
+    arr.flags.writeable = False
+    return arr
-- 
2.43.0


From cf2ff154a4b0e17bb0711606f00f6f6bd4943bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 08/22] fix: empty sub-curves and copies keep the curve
 dimension

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 31a9df9..a48baae 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1144,6 +1144,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
+            if is_array and curve_data.ndim == 2 and curve_data.shape[0] == 0:
+                # Keep the dimension of the empty data
+                ndmin = max(ndmin, curve_data.shape[1])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From 818f72f6eb0aa52ce177b47ad67bfc96e7f2ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 09/22] fix: collinearity does not depend on the position of
 the origin

The rank of absolute coordinates is 1 only for lines through the origin, so
collinear segments elsewhere were reported as not collinear and their overlaps
were lost by the exact intersection method.
---
 skcurve/_geomalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..c791c08 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the relative coordinates of these vectors is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +225,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    # Relative differences
+    return np.linalg.matrix_rank(m[:, 1:] - m[:, :1], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From eded71b9fad7fe6030768e9071f1fdefcdf52263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 10/22] fix: overlap of segments with decreasing coordinates
 lies on the segments

---
 skcurve/_geomalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c791c08..cbaca0d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -302,8 +302,12 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # The coordinates can decrease along the line while the leading one increases
+    direction = p22_data - p21_data if segment1.singular else p12_data - p11_data
+    decreasing = direction * direction[np.argmax(np.abs(direction))] < 0
+
+    return skcurve._base.Segment(p1=skcurve._base.Point(np.where(decreasing, data_minmax, data_maxmin)),
+                                 p2=skcurve._base.Point(np.where(decreasing, data_maxmin, data_minmax)))
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From f4a059ba71e599be5753da04fdbd802bc9dc0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 11/22] fix: shortest segment to a singular segment

The nearest point of the first segment was not computed when the second segment
degenerates into a point.
---
 skcurve/_geomalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index cbaca0d..9a5a656 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -402,8 +402,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             tn = e + b
             td = c
 
-    if tn < 0.0:
-        # tc < 0 => the t=0 edge is visible
+    if tn < 0.0 or c < tol:
+        # tc < 0 => the t=0 edge is visible (or the second segment is singular)
         tn = 0.0
         # recompute sc for this edge
         if -d < 0.0:
@@ -525,7 +525,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
     td[sn_gt_sd] = c[sn_gt_sd]
 
-    tn_lt_zero = tn < 0
+    tn_lt_zero = (tn < 0) | (c < tol)
     tn[tn_lt_zero] = 0.0
 
     md_lt_zero = (-d < 0) & tn_lt_zero
-- 
2.43.0


From 1ac1400343614fa1c0572730c621e06152ff320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 12/22] fix: nonsingular drops close points separated by
 NaN/Inf points and accepts empty curves

---
 skcurve/_diffgeom.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 1f4d343..2cbf5e0 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -58,13 +58,21 @@ def nonsingular(curve: 'Curve'):
 
     """
 
-    chord_lengths = curve.chordlen
+    def is_not_finite(curve_data):
+        return np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1)
+
+    # The points around dropped NaN/Inf points become adjacent and can be close too
+    finite_curve = curve.drop(is_not_finite)
+
+    if not finite_curve:
+        return finite_curve
+
+    chord_lengths = finite_curve.chordlen
 
     def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+        return np.isclose(np.hstack([1.0, chord_lengths]), 0.0)
 
-    return curve.drop(is_singular)
+    return finite_curve.drop(is_singular)
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From 1f481622ff02c82afe79a34ee9fcff20dabddb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 13/22] fix: window smoothing does not modify the window
 returned by user callable

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..d5b0705 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -167,7 +167,7 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
         curve.data,
-- 
2.43.0


From 9ce528e28c7c5c16b57ffc1ed53c9269367bb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 14/22] fix: copy of a point keeps its dtype

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index a48baae..0c10fd2 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -275,7 +275,7 @@ class Point(abc.Sequence):
         return self.__deepcopy__()
 
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
-        return Point(self)
+        return Point(self, dtype=self.dtype)
 
     @property
     def data(self) -> np.ndarray:
-- 
2.43.0


From 78c2b5018269b1fdb9735bbbca37f6d54f1ed6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 15/22] fix: negative axis out of the data array axes is
 rejected

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index 8ca6cb6..022d960 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if axis < 0 or axis >= arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From 1483442165edf089e6491eb8c5bffde98a82d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 16/22] fix: coorientplane does not warn about ignored tdata
 for parametric curves

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 0c10fd2..56248d4 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1696,7 +1696,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not is_coorient:
             return self.reverse()
         else:
-            return Curve(self, tdata=self._tdata)
+            return Curve(self)
 
     def insert(self, index: Indexer, other: PointCurveUnion) -> 'Curve':
         """Inserts point or sub-curve to the curve and returns new curve
-- 
2.43.0


From a82f54d0491902f3b3f426c890450777e2a7610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 17/22] fix: moving average of an integer curve is not
 truncated

The smoothed curve is documented to be of type float64, but convolve1d keeps the
integer type of its input.
---
 skcurve/_smooth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index d5b0705..a4bd07f 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -172,6 +172,7 @@ def window_filter(curve: 'Curve',
     return ndimage.convolve1d(
         curve.data,
         weights=window,
+        output=np.float64,
         mode=mode,
         cval=cval,
         axis=0,
-- 
2.43.0


From aab25bb527c758e3dafe6bf709f86665170cdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 18/22] fix: segment parameter of a one-point sequence off the
 segment line raised IndexError

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 9a5a656..ac441f8 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -108,12 +108,12 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
     if is_collinear.size == 0:
         return float(t)
     else:
+        if t.size == 1:
+            t = np.array(t, ndmin=1)
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From bbf6213e127eda69fad7847059ad215e2118f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 19/22] fix: compute chord lengths of integer curves in
 floating point

---
 skcurve/_diffgeom.py |  4 ++--
 skcurve/_numeric.py  | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 2cbf5e0..68ff897 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -23,7 +23,7 @@ import numpy as np
 
 from cached_property import cached_property
 
-from skcurve._numeric import dot1d
+from skcurve._numeric import dot1d, asfloat
 from skcurve._utils import readonly
 import skcurve._base
 
@@ -97,7 +97,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.array([], dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    return np.sqrt(np.sum((np.diff(asfloat(curve.data), axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..ad0f92b 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -87,6 +87,29 @@ def dot1d(data1: np.ndarray, data2: np.ndarray) -> np.ndarray:
     return np.einsum('ij,ij->i', data1, data2)
 
 
+def asfloat(data: np.ndarray) -> np.ndarray:
+    """Converts integer data to floating point, other data are returned as is
+
+    The arithmetic of integer arrays truncates fractions and is modular
+    (for example, the difference of unsigned values is never negative).
+
+    Parameters
+    ----------
+    data : np.ndarray
+        The data array
+
+    Returns
+    -------
+    res : np.ndarray
+        The data array without integer dtype
+
+    """
+
+    if np.issubdtype(data.dtype, np.integer):
+        return data.astype(np.float64)
+    return data
+
+
 def linrescale(in_data: np.ndarray,
                in_range: ty.Optional[ty.Tuple[float, float]] = None,
                out_range: ty.Optional[ty.Tuple[float, float]] = None,
-- 
2.43.0


From e957790813b6dbc5bf1efc6e91758c6062c07621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 20/22] fix: find almost intersections of integer curves at
 fractional parameters

---
 skcurve/_geomalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index ac441f8..ef614ee 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS
+from skcurve._numeric import F_EPS, asfloat
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -474,6 +474,9 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    data1 = asfloat(data1)
+    data2 = asfloat(data2)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
-- 
2.43.0


From 78f66eb954ccf23fb87973cc69b8f6d7c3a26e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 21/22] fix: compare the positions of integer points without
 modular arithmetic

---
 skcurve/_geomalg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index ef614ee..f3e5a3d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -220,6 +220,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points]).T
 
+    points_data = asfloat(points_data)
     m = np.unique(points_data, axis=1)
 
     if m.shape[1] < 3:
@@ -257,6 +258,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         return True
 
     # Relative differences
+    points_data = asfloat(points_data)
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
 
-- 
2.43.0


From af89525229731697e129a09718a90da20bba355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 22/22] fix: a smoothed curve is of type float64 as documented,
 also for single-precision curves and integer results of a method

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index a4bd07f..5394682 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -217,4 +217,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


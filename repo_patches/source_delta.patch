From 62613ee9cf691558220c35dc844814042e8c01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 001/101] fix: make the graphic scene package importable
 (syntax error, wrong package, unresolved annotations)

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 10 +++++-----
 Patro/GraphicEngine/GraphicScene/Scene.py            |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..4bdf175 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
@@ -59,7 +59,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', user_data: Any) -> None:
         self._scene = scene
         self._user_data = user_data
 
@@ -75,7 +75,7 @@ class GraphicItem:
     ##############################################
 
     @property
-    def scene(self) -> GraphicScene:
+    def scene(self) -> 'GraphicScene':
         return self._scene
 
     @property
@@ -177,7 +177,7 @@ class PathStyleItemMixin(GraphicItem):
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, path_style: GraphicPathStyle, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', path_style: GraphicPathStyle, user_data: Any) -> None:
         GraphicItem.__init__(self, scene, user_data)
         self._path_style = path_style
 
@@ -270,7 +270,7 @@ class ThreePositionMixin(TwoPositionMixin):
         return self._position3
 
     @property
-    def positions(self) -> list(Vector2D, Vector2D, Vector2D):
+    def positions(self) -> tuple[Vector2D, Vector2D, Vector2D]:
         return (self._position1, self._position2, self._position3)
 
 ####################################################################################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From cc34fd218b9139c5c0497637be228ce3ddbf30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 002/101] fix: ValentinaMeasurements derives from the renamed
 MeasurementSet

---
 Patro/Measurement/ValentinaMeasurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From a87e68d2d3a0c7bae09c34818eca094125502c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 003/101] fix: vectors report their dimension and homogeneous
 vectors support the vector operators

---
 Patro/GeometryEngine/Vector.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..ec8a6ba 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -74,7 +74,7 @@ from .Primitive import Primitive, Primitive2DMixin
 
 ####################################################################################################
 
-class Vector2DBase(Primitive, Primitive2DMixin):
+class Vector2DBase(Primitive2DMixin, Primitive):
 
     __data_type__ = None
 
@@ -179,26 +179,26 @@ class Vector2DBase(Primitive, Primitive2DMixin):
 
     def __add__(self, other) -> 'Vector2DBase':
         """Return a new vector equal to the addition of self and other"""
-        return self.__class__(self._v + other.v)
+        return self.__class__(self._v + other._v)
 
     ##############################################
 
     def __iadd__(self, other) -> 'Vector2DBase':
         """Add other to self"""
-        self._v += other.v
+        self._v += other._v
         return self
 
     ##############################################
 
     def __sub__(self, other) -> 'Vector2DBase':
         """Return a new vector"""
-        return self.__class__(self._v - other.v)
+        return self.__class__(self._v - other._v)
 
     ##############################################
 
     def __isub__(self, other) -> 'Vector2DBase':
         """Return a new vector equal to the subtraction of self and other"""
-        self._v -= other.v
+        self._v -= other._v
         return self
 
     ##############################################
@@ -391,13 +391,13 @@ class Vector2DFloatBase(Vector2DBase):
 
     def dot(self, other: 'Vector2DFloatBase') -> float:
         """Return the dot product of self with other"""
-        return float(np.dot(self._v, other.v))
+        return float(np.dot(self._v, other._v))
 
     ##############################################
 
     def cross(self, other: 'Vector2DFloatBase') -> float:
         """Return the cross product of self with other"""
-        return float(np.cross(self._v, other.v))
+        return float(np.cross(self._v, other._v))
 
     ##############################################
 
@@ -619,7 +619,7 @@ class HomogeneousVector2D(Vector2D):
     def __init__(self, vector) -> None:
         # self._v = np.ones((3), dtype=self.__data_type__)
         # self._v[:2] = vector.v[:2]
-        self._v = np.array(vector[:2])   # to keep compatibility
+        self._v = np.array(vector[:2], dtype=self.__data_type__)   # to keep compatibility
         self._w = 1
 
     ##############################################
-- 
2.43.0


From 52889cea3ee11f71def627249c6fbef7a27a8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 004/101] fix: reversal, vertices, point array and path
 conversion of the point primitives

---
 Patro/GeometryEngine/Primitive.py | 33 +++++++++++++++++++------------
 Patro/GeometryEngine/Rectangle.py | 11 +++++++++--
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..3e119eb 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
@@ -320,18 +320,22 @@ class ClosedPrimitiveMixin:
 
     ##############################################
 
+    @property
+    def vertices(self):
+        """Vertices of the closed primitive."""
+        return tuple(self.points)
+
+    ##############################################
+
     @property
     def closed_points(self):
-        # Fixme: don't work for iterator
-        # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        return closed_iterator(self.vertices)
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
-        # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(self.vertices)
 
     ##############################################
 
@@ -360,7 +364,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -428,11 +432,11 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
     ##############################################
 
     def _set_points(self, points):
-        self._p0 = points
+        self._p0, = points
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -479,6 +483,9 @@ class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
     def reversed_points(self):
         return iter((self._p1, self._p0))
 
+    def iter_from_second_point(self):
+        return iter((self._p1,))
+
     ##############################################
 
     def _set_points(self, points):
@@ -536,7 +543,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +595,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
@@ -597,7 +604,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
@@ -685,7 +692,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.vertices)
 
 ####################################################################################################
 
diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..ed9bb2c 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
@@ -75,6 +75,13 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     def p10(self):
         return self.__vector_cls__(self._p1.x, self._p0.y)
 
+    @property
+    def vertices(self):
+        return (self._p0, self.p01, self._p1, self.p10)
+
+    def iter_from_second_point(self):
+        return iter(self.vertices[1:])
+
     @property
     def edges(self):
 
-- 
2.43.0


From 1f824fd5d98c39d67987b9a8ed530370b54833e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 005/101] fix: line, segment, polyline and triangle measures

---
 Patro/GeometryEngine/Line.py     | 10 ++++++----
 Patro/GeometryEngine/Polyline.py | 10 ++++++++--
 Patro/GeometryEngine/Segment.py  |  2 +-
 Patro/GeometryEngine/Triangle.py | 14 ++++++--------
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..bcf5503 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -95,13 +95,15 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
@@ -210,7 +212,7 @@ class Line2D(Primitive2DMixin, Primitive):
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-        return self.interpolate(self.projected_abscissa(point))
+        return self.point_at_distance(self.projected_abscissa(point))
 
     def triangle_projected_point(self, point: Vector2D, distance: float, reverse: bool=False) -> Vector2D:
         p = self.projected_point(point)
@@ -263,8 +265,8 @@ class Line2D(Primitive2DMixin, Primitive):
         """Return the bounding box build on the intersection of the input bounding box with the line
 
         """
-        left, bottom, right, top = interval.bounding_box()
-        vb = Vector2D(interval.size())
+        left, bottom, right, top = interval.bounding_box
+        vb = Vector2D(interval.size)
         if abs(self.v.tan) > vb.tan:
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..20f58b1 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
@@ -63,7 +69,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
@@ -82,6 +88,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..1fe0027 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -217,4 +217,4 @@ class Segment2D(Primitive2DMixin, Primitive2P):
         # Fixme: check d / is collinear
         # Fixme: p2 <- p1
         #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return 0 <= s <= self.length
diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..c3759c3 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,19 +151,17 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        self._a10 = abs((self._p2 - self._p0).angle_with(self._p1 - self._p0))
+        self._a21 = abs((self._p0 - self._p1).angle_with(self._p2 - self._p1))
+        self._a02 = abs((self._p1 - self._p2).angle_with(self._p0 - self._p2))
 
     ##############################################
 
-- 
2.43.0


From eb14c3dfd369f52d2da820ea0f48f6696068c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 006/101] fix: polygon caches, inclusion test, recentering,
 convex hull and regular polygons

---
 Patro/GeometryEngine/Polygon.py | 70 ++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..0013162 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -113,6 +113,18 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        # reset cached values
+        self._edges = None
+        self._is_simple = None
+        self._is_convex = None
+        self._area = None
+        self._is_clockwise = None
+        self._major_axis = None
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
@@ -262,6 +274,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if area == 0:
             # print('Null area')
             self._area = 0
+            self._area_sign = 0
             self._barycenter = self.start_point
         else:
             factor = 1 / (6*area)
@@ -406,9 +419,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
@@ -455,7 +467,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if ((edge.p0.y <= y < edge.p1.y) or # upward crossing
                 (edge.p1.y <= y < edge.p0.y)):  # downward crossing
-                xi = edge.p0.x + (y - edge.p0.y) / edge.vector.slope
+                xi = edge.p0.x + (y - edge.p0.y) / edge.vector.tan
                 if x < xi:
                     crossing_number += 1
 
@@ -477,14 +489,14 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        return winding_number != 0
 
     ##############################################
 
@@ -619,6 +631,44 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        obj._set_points([point.clone() for point in self._points])
+        return obj
+
+    ##############################################
+
+    def reverse(self):
+        return Polygon2D(*self.reversed_points)
+
+    ##############################################
+
+    def simplify(self, threshold):
+        return Polygon2D(*self.points).simplify(threshold)
+
+    ##############################################
+
+    def apply_transformation(self, transformation):
+        super().apply_transformation(transformation)
+        self._update_frame(transformation * self._center)
+
+    ##############################################
+
+    def recenter(self):
+        barycenter = self.barycenter
+        super().recenter()
+        self._update_frame(self._center - barycenter)
+
+    ##############################################
+
+    def _update_frame(self, center):
+        offset = self.start_point - center
+        self._center = center
+        self._radius = offset.magnitude
+        self._angle = offset.orientation
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
@@ -644,9 +694,9 @@ class RegularPolygon(Polygon2D):
     @classmethod
     def ngon_name(cls, number_of_edges):
         try:
-            return self.NGON_NAMES[number_of_edges]
+            return cls.NGON_NAMES[number_of_edges -1]
         except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
@@ -696,7 +746,7 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
+        data.append([point, direction, direction.orientation, None])
     data.sort(key=itemgetter(2))
 
     # if several points have the same angle then only keep the farther
-- 
2.43.0


From 681c94079c8aad02989980c218320608c46cf073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 007/101] fix: arrow heads, splines and Bezier queries

---
 Patro/GeometryEngine/Bezier.py          | 36 +++++++-------
 Patro/GeometryEngine/Shape/ArrowHead.py | 63 +++++++++++++++++++++++--
 Patro/GeometryEngine/Spline.py          | 52 +++++++++++---------
 3 files changed, 106 insertions(+), 45 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..10fa14d 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,7 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
+from .Transformation import AffineTransformation2D
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -105,14 +105,17 @@ class BezierMixin2D(Primitive2DMixin):
         if cache: # lookup cache
             if not hasattr(self, '_length_cache'):
                 self._length_cache = {}
-            length = self._length_cache.get(t, None)
+            # the cache must not survive a move of the control points
+            key = (t,) + tuple(x for point in self.points for x in point)
+            length = self._length_cache.get(key, None)
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        left = self.split_at_t(t)[0]
+        length = left.length if left is not None else 0
 
         if cache: # save
-            self._length_cache[t] = length
+            self._length_cache[key] = length
 
         return length
 
@@ -174,9 +177,8 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
-        # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
+        transformation = AffineTransformation2D.Translation(-line.p)
+        transformation *= AffineTransformation2D.Rotation(-line.v.orientation)
         # Fixme: better API ?
         return self.clone().transform(transformation)
 
@@ -187,9 +189,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = [i/(self.number_of_points-1) for i in range(self.number_of_points)]
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
@@ -214,9 +216,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
@@ -299,13 +301,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
@@ -357,7 +359,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
@@ -390,7 +392,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
             return None
         else:
-            return self.point_at_t(t)
+            return self.point_at_t(t[0])
 
     ##############################################
 
diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..e70eab1 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -32,6 +32,8 @@ __all__ = [
 
 ####################################################################################################
 
+import math
+
 from ..Path import Path2D
 from ..Polygon import Polygon2D
 from ..Vector import Vector2D
@@ -98,13 +100,45 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
     ##############################################
 
+    def _clone_args(self):
+        return (self._point, self._direction, self._length, self._width)
+
+    def clone(self):
+        return self.__class__(
+            *self._clone_args(),
+            axial_offset=self._axial_offset,
+            left_side=self._left_side,
+            right_side=self._right_side,
+        )
+
+    ##############################################
+
+    def apply_transformation(self, transformation):
+
+        normal = self._direction.normal
+        point = transformation * self._point
+        back = transformation * self.back_tip_point
+        side = transformation * (self._point + normal * self._width)
+        offset = transformation * (self._point + self._direction * self._axial_offset)
+
+        super().apply_transformation(transformation)
+
+        self._point = point
+        self._direction = (point - back).normalise()
+        self._length = (point - back).magnitude
+        self._width = (side - point).magnitude
+        self._axial_offset = math.copysign((offset - point).magnitude, self._axial_offset)
+        self._back_tip_point = None
+
+    ##############################################
+
     @property
     def length(self):
         return self._length
@@ -160,7 +194,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
@@ -200,6 +234,20 @@ class TriangularHead(TriangularHeadMixin, Polygon2D):
 
     ##############################################
 
+    def reverse(self):
+        return Polygon2D(*self.reversed_points)
+
+    def simplify(self, threshold):
+        return Polygon2D(*self.points).simplify(threshold)
+
+    def recenter(self):
+        barycenter = self.barycenter
+        super().recenter()
+        self._point = self._point - barycenter
+        self._back_tip_point = None
+
+    ##############################################
+
     def _make_points(self):
 
         # tip_point = self._point
@@ -245,13 +293,18 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
                                      left_side, right_side,
         )
 
-        self._curve_depth = float(curve_depth)
+        self._curve_depth = float(curve_depth)   # relative to the edge length
 
         Path2D.__init__(self, self._point)
         self._make_path()
 
     ##############################################
 
+    def _clone_args(self):
+        return super()._clone_args() + (self._curve_depth,)
+
+    ##############################################
+
     @property
     def curve_depth(self):
         return self._curve_depth
@@ -270,7 +323,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..6d2c762 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1,   1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0,   2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
+        #          P0 * (1-t)**2              +
+        #          P1 * ( -2*t**2 + 2*t + 1 ) +
+        #          P2 *      t**2
+        #        ) / 2
 
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        return (self._p0/2 + self._p1/2 +
+                (self._p1 - self._p0)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
@@ -136,12 +132,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
@@ -212,6 +202,22 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        knots = None if self._uniform else self._knots
+        return self.__class__(self._points, self._degree, self._closed, knots)
+
+    ##############################################
+
+    def reverse(self):
+        if self._uniform:
+            knots = None
+        else:
+            inf, sup = self._knots[0], self._knots[-1]
+            knots = [inf + sup - knot for knot in reversed(self._knots)]
+        return self.__class__(list(self.reversed_points), self._degree, self._closed, knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
@@ -353,7 +359,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
@@ -444,7 +450,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         elif self._degree >= 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            raise NotImplementedError
 
         # Fixme: degree > 3
         spline = self.to_bezier_form()
-- 
2.43.0


From d41d1544501323548823e5733a060a76b4268ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 008/101] fix: type, size and composition of the
 transformations

---
 Patro/GeometryEngine/Transformation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..857f311 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -101,7 +101,7 @@ class Transformation:
             else:
                 raise IncompatibleArrayDimension
         else:
-            array = np.array((self.__size__, self.__size__))
+            array = np.zeros((self.__size__, self.__size__))
             array[...] = obj
 
         self._m = np.array(array)
@@ -118,7 +118,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
@@ -371,6 +371,12 @@ class AffineTransformation2D(AffineTransformation):
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
         # Fixme: translation etc. !!!
+        if np.any(self.translation_part):
+            if matrix_type == TransformationType.Identity:
+                return TransformationType.Translation
+            else:
+                return TransformationType.Generic
+        return matrix_type
 
     ##############################################
 
-- 
2.43.0


From 867ceb0c328bbc7773a629259b1ef6cfa2608221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 009/101] fix: circle and ellipse copies, extents,
 intersections and transformations

---
 Patro/GeometryEngine/Conic.py | 82 +++++++++++++++++------------------
 Patro/GeometryEngine/Mixin.py | 20 ++++++++-
 2 files changed, 59 insertions(+), 43 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..e524a4c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -135,15 +134,19 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        domain = self._domain.clone() if self._domain is not None else None
+        return self.__class__(self._center, self._radius, domain)
 
     ##############################################
 
     def apply_transformation(self, transformation):
+        x_axis, y_axis = self._transform_axes(transformation, 0)
         self._center = transformation * self._center
         # Fixme: shear -> ellipse
         if self._radius is not None:
             self._radius = transformation * self._radius
+        if self._domain is not None:
+            self._domain = self._domain.transform(x_axis.cross(y_axis) < 0, x_axis.orientation)
 
     ##############################################
 
@@ -172,7 +175,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
@@ -314,7 +317,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0:
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -322,12 +327,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if y2 < 0:
             return None
         else:
-            p = self.center + v.normalise() * x
+            v.normalise()
+            p = self.center + v * x
             if y2 == 0:
                 return p
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
@@ -392,7 +398,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -445,25 +451,27 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
+        domain = self._domain.clone() if self._domain is not None else None
         return self.__class__(
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            domain,
         )
 
     ##############################################
 
     def apply_transformation(self, transformation):
+        x_axis, y_axis = self._transform_axes(transformation, self._angle)
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
+        self._angle = x_axis.orientation
+        if self._domain is not None:
+            self._domain = self._domain.transform(x_axis.cross(y_axis) < 0)
 
     ##############################################
 
@@ -499,12 +507,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
@@ -537,9 +545,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
@@ -573,26 +581,18 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        radius_x, radius_y = self._radius_x, self._radius_y
+        if self._angle != 0:
+            angle = radians(self._angle)
+            c2 = cos(angle)**2
+            s2 = sin(angle)**2
+            radius_x2, radius_y2 = radius_x**2, radius_y**2
+            radius_x = sqrt(radius_x2 * c2 + radius_y2 * s2)
+            radius_y = sqrt(radius_x2 * s2 + radius_y2 * c2)
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(radius_x)
+        bounding_box.y.enlarge(radius_y)
+        return bounding_box
 
     ##############################################
 
@@ -701,11 +701,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         if is_inside:
             # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
+            return point_in_frame_abs.magnitude_square <= point_in_ellipse.magnitude_square
         elif return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
@@ -735,6 +731,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return None
+        if isinstance(points, self.__vector_cls__):   # tangent line
+            points = (points,)
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..d1af294 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,11 +57,21 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
 
+    def transform(self, mirror=False, angle=0):
+        """Return the domain mirrored by the x axis if *mirror* is set, then rotated of *angle* degree"""
+        if mirror:
+            start, stop = -self._stop, -self._start
+        else:
+            start, stop = self._start, self._stop
+        return self.__class__(start + angle, stop + angle)
+
+    ##############################################
+
     def __repr__(self):
         return '{0}({1._start}, {1._stop})'.format(self.__class__.__name__, self)
 
@@ -134,7 +144,7 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                return 2*pi + length
 
     ##############################################
 
@@ -202,6 +212,12 @@ class CenterMixin:
     def center(self, value):
         self._center = self.__vector_cls__(value)
 
+    def _transform_axes(self, transformation, angle):
+        """Return the images of the axes oriented at *angle*"""
+        center = transformation * self._center
+        axes = [self.__vector_cls__.from_angle(_) for _ in (angle, angle + 90)]
+        return [transformation * (self._center + axis) - center for axis in axes]
+
     @property
     def points(self):
         return (self._center,)
-- 
2.43.0


From bebc74f59bd8bc024659ce52d2bd07d1012e16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 010/101] fix: end points of the SVG arcs

---
 Patro/GeometryEngine/Conic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e524a4c..4b2f606 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -417,15 +417,14 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(point1_prime.anti_normal)
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
         center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        theta = vector1.angle_with(cls.__vector_cls__(1, 0))
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
@@ -476,7 +475,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
-- 
2.43.0


From 55d474a96710a6c5f64310408ab6fbe3d54ff54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 011/101] fix: a scalar is scaled by any similarity
 transformation

---
 Patro/GeometryEngine/Transformation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 857f311..4d189de 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -37,7 +37,7 @@ __all__ = [
 ####################################################################################################
 
 from enum import Enum, auto
-from math import sin, cos, radians, degrees
+from math import sin, cos, hypot, isclose, radians, degrees
 
 import numpy as np
 
@@ -196,7 +196,13 @@ class Transformation:
             elif self._type not in (TransformationType.Shear, TransformationType.Generic):
                 return abs(self._m[0,0]) * obj
             else:
-                raise ValueError('Transformation is sheared')
+                # e.g. the composition of a rotation and a translation is generic
+                x_axis, y_axis = self._m[:2,0], self._m[:2,1]
+                scale = hypot(*x_axis)
+                if (not isclose(scale, hypot(*y_axis))
+                    or abs(np.dot(x_axis, y_axis)) > 1e-9*scale**2):
+                    raise ValueError('Transformation is sheared')
+                return scale * obj
         else:
             raise ValueError
 
-- 
2.43.0


From ad1091de811a9af90e88413b7bbf9caf780b8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 012/101] fix: path copies, transformations, stringed segments
 and absolute horizontal/vertical segments

---
 Patro/GeometryEngine/Path.py | 257 ++++++++++++++++++++---------------
 1 file changed, 147 insertions(+), 110 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..d57ecbf 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -310,40 +296,35 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        # Note: not cached, a segment depends on the position of its neighbours
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # return (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -357,30 +338,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -419,14 +394,10 @@ class PathSegment(OnePointMixin, LinearSegment):
 
     def clone(self, path):
 
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
+        radius = None if self._start_bulge else self._radius
         obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
+        if self._start_bulge:
+            obj.close(self._radius)
 
         return obj
 
@@ -456,6 +427,28 @@ class DirectionalSegmentMixin(LinearSegment):
 
     ##############################################
 
+    def clone(self, path):
+
+        radius = None if self._start_bulge else self._radius
+        obj = self._clone(path, radius)
+        if self._start_bulge:
+            obj.close(self._radius)
+
+        return obj
+
+    ##############################################
+
+    def _to_path_segment(self, point, absolute):
+
+        radius = None if self._start_bulge else self._radius
+        obj = PathSegment(self._path, self._index, point, radius, absolute, self._closing)
+        if self._start_bulge:
+            obj.close(self._radius)
+
+        return obj
+
+    ##############################################
+
     def apply_transformation(self, transformation):
         # Since a rotation will change the direction
         # DirectionalSegment must be casted to PathSegment
@@ -466,7 +459,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
@@ -475,21 +468,7 @@ class AbsoluteHVSegment(DirectionalSegmentMixin):
     ##############################################
 
     def to_path_segment(self):
-
-        # Fixme: duplicted
-        if self._index == 0 and self._radius is not None:
-            radius = None
-            close = True
-        else:
-            radius = self._radius
-            close = False
-
-        path = PathSegment(self._path, self._index, self.stop_point, radius, absolute=True)
-
-        if close:
-            path.close(self._radius)
-
-        return path
+        return self._to_path_segment(self.stop_point, absolute=True)
 
 ####################################################################################################
 
@@ -510,8 +489,8 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
 
     ##############################################
 
-    def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+    def _clone(self, path, radius):
+        return self.__class__(path, self._index, self._x, radius)
 
     ##############################################
 
@@ -548,8 +527,8 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
 
     ##############################################
 
-    def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+    def _clone(self, path, radius):
+        return self.__class__(path, self._index, self._y, radius)
 
     ##############################################
 
@@ -586,8 +565,8 @@ class DirectionalSegment(DirectionalSegmentMixin):
 
     ##############################################
 
-    def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+    def _clone(self, path, radius):
+        return self.__class__(path, self._index, self._length, radius)
 
     ##############################################
 
@@ -614,20 +593,7 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def to_path_segment(self):
-
-        if self._index == 0 and self._radius is not None:
-            radius = None
-            close = True
-        else:
-            radius = self._radius
-            close = False
-
-        path = PathSegment(self._path, self._index, self.offset, radius, absolute=False)
-
-        if close:
-            path.close(self._radius)
-
-        return path
+        return self._to_path_segment(self.offset, absolute=False)
 
 ####################################################################################################
 
@@ -724,7 +690,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -753,30 +719,49 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
 ####################################################################################################
 
-class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
+class StringedQuadraticBezierSegment(OnePointMixin, PathPart):
 
     ##############################################
 
-    def __init__(self, path, index, point1, absolute=False):
+    def __init__(self, path, index, point, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        self.point1 = point1
+        self.point = point
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, absolute)
+        return self.__class__(path, self._index, self._point, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point = self.stop_point
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def point1(self):
+        """Reflection of the control point of the previous quadratic segment"""
+        prev_part = self.prev_part
+        if isinstance(prev_part, (QuadraticBezierSegment, StringedQuadraticBezierSegment)):
+            return self.start_point * 2 - prev_part.point1
+        else:
+            return self.start_point
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.stop_point)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return QuadraticBezier2D(*self.points)
 
 ####################################################################################################
 
@@ -784,26 +769,66 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
 
     ##############################################
 
-    def __init__(self, path, index, point1, point2, absolute=False):
+    def __init__(self, path, index, point2, point3, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        # self.point1 = point1
+        # Note: point1 is the reflection of the previous control point
+        self.point2 = point2
+        self.point3 = point3
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, absolute)
+        return self.__class__(path, self._index, self._point2, self._point3, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point2 = self.point2
+        self._point3 = self.point3
+        self._absolute = True
+
+    ##############################################
+
+    def apply_transformation(self, transformation):
+        self._point2 = transformation * self._point2
+        self._point3 = transformation * self._point3
+
+    ##############################################
+
+    @property
+    def point1(self):
+        """Reflection of the control point of the previous cubic segment"""
+        prev_part = self.prev_part
+        if isinstance(prev_part, (CubicBezierSegment, StringedCubicBezierSegment)):
+            return self.start_point * 2 - prev_part.point2
+        else:
+            return self.start_point
+
+    @property
+    def point3(self):
+        return self.to_absolute_point(self._point3)
+
+    @point3.setter
+    def point3(self, value):
+        self._point3 = Vector2D(value)
+
+    @property
+    def stop_point(self):
+        return self.point3
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.point2, self.point3)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return CubicBezier2D(*self.points)
 
 ####################################################################################################
 
@@ -826,6 +851,19 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+        origin = transformation * Vector2D(0, 0)
+        x_axis = transformation * Vector2D.from_polar(1, self._angle) - origin
+        y_axis = transformation * Vector2D.from_polar(1, self._angle + 90) - origin
+        super().apply_transformation(transformation)
+        self._radius_x *= x_axis.magnitude
+        self._radius_y *= y_axis.magnitude
+        self._angle = x_axis.orientation
+        if x_axis.cross(y_axis) < 0:
+            self._sweep = not self._sweep
+
+    ##############################################
+
     def clone(self, path):
         return self.__class__(
             path,
@@ -894,6 +932,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     def clone(self):
 
         obj = self.__class__(self._p0)
+        obj._is_closed = self._is_closed
 
         # parts must be added sequentially to the path for bulge check
         parts = obj._parts
@@ -959,8 +998,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
@@ -1003,8 +1040,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1012,8 +1048,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
@@ -1063,6 +1098,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         # Fixme: identify as close for SVG export <-- meaning ???
 
         closing = close_radius is not None
+        if closing and not isinstance(self.start_segment, LinearSegment):
+            raise ValueError('First path segment must be linear')
         segment = self._add_part(PathSegment, self._p0, radius, absolute=True, closing=closing)
         if closing:
             self.start_segment.close(close_radius)
-- 
2.43.0


From fab6b5da767949383972fdd28798f601a3f05006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 013/101] fix: images of the axes keep the scale of the drawing

---
 Patro/GeometryEngine/Conic.py | 8 ++++----
 Patro/GeometryEngine/Mixin.py | 6 +++---
 Patro/GeometryEngine/Path.py  | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 4b2f606..7920e2d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -140,13 +140,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        x_axis, y_axis = self._transform_axes(transformation, 0)
+        if self._domain is not None:
+            x_axis, y_axis = self._transform_axes(transformation, self._radius, 0)
+            self._domain = self._domain.transform(x_axis.cross(y_axis) < 0, x_axis.orientation)
         self._center = transformation * self._center
         # Fixme: shear -> ellipse
         if self._radius is not None:
             self._radius = transformation * self._radius
-        if self._domain is not None:
-            self._domain = self._domain.transform(x_axis.cross(y_axis) < 0, x_axis.orientation)
 
     ##############################################
 
@@ -464,7 +464,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        x_axis, y_axis = self._transform_axes(transformation, self._angle)
+        x_axis, y_axis = self._transform_axes(transformation, self._radius_x, self._angle)
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index d1af294..3183fab 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -212,10 +212,10 @@ class CenterMixin:
     def center(self, value):
         self._center = self.__vector_cls__(value)
 
-    def _transform_axes(self, transformation, angle):
-        """Return the images of the axes oriented at *angle*"""
+    def _transform_axes(self, transformation, length, angle):
+        """Return the images of the axes of the given *length* and oriented at *angle*"""
         center = transformation * self._center
-        axes = [self.__vector_cls__.from_angle(_) for _ in (angle, angle + 90)]
+        axes = [self.__vector_cls__.from_polar(length, _) for _ in (angle, angle + 90)]
         return [transformation * (self._center + axis) - center for axis in axes]
 
     @property
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index d57ecbf..45b49d7 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -853,11 +853,11 @@ class ArcSegment(OnePointMixin, PathPart):
 
     def apply_transformation(self, transformation):
         origin = transformation * Vector2D(0, 0)
-        x_axis = transformation * Vector2D.from_polar(1, self._angle) - origin
-        y_axis = transformation * Vector2D.from_polar(1, self._angle + 90) - origin
+        x_axis = transformation * Vector2D.from_polar(self._radius_x, self._angle) - origin
+        y_axis = transformation * Vector2D.from_polar(self._radius_y, self._angle + 90) - origin
         super().apply_transformation(transformation)
-        self._radius_x *= x_axis.magnitude
-        self._radius_y *= y_axis.magnitude
+        self._radius_x = x_axis.magnitude
+        self._radius_y = y_axis.magnitude
         self._angle = x_axis.orientation
         if x_axis.cross(y_axis) < 0:
             self._sweep = not self._sweep
-- 
2.43.0


From ff72b49567f81a3dbcad916d11dbe987490d4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 014/101] fix: rounded rectangle and circle paths from a
 subclass of path

---
 Patro/GeometryEngine/Path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 45b49d7..5157f9d 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1138,7 +1138,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     @classmethod
     def rounded_rectangle(cls, point, width, height, radius=None):
 
-        path = cls(point)
+        path = Path2D(point) # Note: a subclass can have a different constructor
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
         path.horizontal_to(-width, radius=radius)
@@ -1152,7 +1152,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     def circle(cls, point, radius):
 
         diameter = 2*float(radius)
-        path = cls(point)
+        path = Path2D(point)
         path.horizontal_to(diameter)
         path.vertical_to(diameter, radius=radius)
         path.horizontal_to(-diameter, radius=radius)
-- 
2.43.0


From ac738c043098fdfb508975fe83e7c40a38599a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:27 +0000
Subject: [PATCH 015/101] fix: cubic_root returns a list for a degenerate cubic
 too

---
 Patro/Common/Math/Root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..6d22320 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -72,7 +72,11 @@ def quadratic_root(a, b, c):
 def cubic_root(a, b, c, d):
 
     if a == 0:
-        return quadratic_root(b, c, d)
+        # returns a list in any case, like the sympy solver
+        roots = quadratic_root(b, c, d)
+        if roots is None:
+            return []
+        return list(roots) if isinstance(roots, tuple) else [roots]
     else:
         return cubic_root_sympy(a, b, c, d)
 
-- 
2.43.0


From b2f1aefda5f037adb2d2754f78c4ca8232fef21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 016/101] fix: close the area of a cubic curve by its chord

---
 Patro/GeometryEngine/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10fa14d..fd3ec7e 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -848,9 +848,11 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         x1, y1 = list(self._p1)
         x2, y2 = list(self._p2)
         x3, y3 = list(self._p3)
-        return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
+        area = (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
                      + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
+        # close the contour by the segment from p3 to p0
+        return area + (x3 * y0 - x0 * y3) / 2
 
     ##############################################
 
-- 
2.43.0


From 8ae839bbb010cf234a57db3a5c839cf103b0ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 017/101] fix: compare a shared vertex with a computed
 intersection up to rounding

---
 Patro/GeometryEngine/Polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 0013162..48dd1c6 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -165,7 +165,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
                     if intersect:
                         common_vertex = edge1.share_vertex_with(edge2)
                         if common_vertex is not None:
-                            if common_vertex == intersection:
+                            if common_vertex.almost_equal(intersection):
                                 continue
                             else:
                                 # degenerated case where a vertex lie on an edge
-- 
2.43.0


From 23750ae82da57098ebd6655cfd92d4ba817ecdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 018/101] fix: Bezier conversion of clockwise arcs

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7920e2d..ed69e0e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -765,7 +765,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: is_over_closer
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            # signed, since an arc can be clockwise
+            angle_span = self._domain.stop - self._domain.start
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From 54297b6f5f66f3a6cbafffc092ec24513d4977b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 019/101] fix: the bisector of a triangle makes the same angle
 with both edges

---
 Patro/GeometryEngine/Triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index c3759c3..0e592f3 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -123,15 +123,15 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return (self._p1 - self._p0).normalise() + (self._p2 - self._p0).normalise()
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return (self._p0 - self._p1).normalise() + (self._p2 - self._p1).normalise()
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return (self._p1 - self._p2).normalise() + (self._p0 - self._p2).normalise()
 
     ##############################################
 
-- 
2.43.0


From 107b4515ad7c3e917ee884914eef5098e480a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 020/101] fix: bounding box of a vertical line

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index bcf5503..0891613 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -267,7 +267,7 @@ class Line2D(Primitive2DMixin, Primitive):
         """
         left, bottom, right, top = interval.bounding_box
         vb = Vector2D(interval.size)
-        if abs(self.v.tan) > vb.tan:
+        if abs(self.v.y * vb.x) > abs(self.v.x * vb.y): # steeper than the box diagonal, v.x can be null
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
         else:
-- 
2.43.0


From fb2af0ab4784d92c6083792acef254caad65318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 021/101] fix: distance to an ellipse taller than wide

---
 Patro/GeometryEngine/Conic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index ed69e0e..a20a4fd 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -652,6 +652,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
 
+        swap = e0 < e1
+        if swap:
+            # the first axis must be the major one
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
+
         if y1 > 0:
             if  y0 > 0:
                 z0 = y0 / e0
@@ -686,6 +692,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
-- 
2.43.0


From 8e875c8895864959eecf8f5fb91b1e7b0ede53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 022/101] fix: representation of a path

---
 Patro/GeometryEngine/Path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 5157f9d..2048918 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -943,6 +943,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{}({}, {})'.format(self.__class__.__name__, self._p0, self._parts)
+
+    ##############################################
+
     def __len__(self):
         return len(self._parts)
 
-- 
2.43.0


From ba65c25d70fddd28e1931ee82c703c09c596bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 023/101] fix: text elements and lists of numbers read from XML

---
 Patro/Common/Xml/Objectivity.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..94c431d 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -179,13 +179,8 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            # separated by comma and/or white space
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
@@ -351,15 +346,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = xml_element.text or ''
 
     ##############################################
 
-- 
2.43.0


From f0a6f79866854aaad383e9b3860510f9cd66dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 024/101] fix: SVG lengths with a unit or in percent

---
 Patro/FileFormat/Svg/SvgFormat.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..2690ffe 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -246,6 +246,11 @@ class PercentValue:
     def __float__(self):
         return self._value
 
+    ##############################################
+
+    def __str__(self):
+        return '{:g}%'.format(self._value * 100)
+
 ####################################################################################################
 
 class UnitValue:
@@ -258,13 +263,19 @@ class UnitValue:
 
     ##############################################
 
+    @property
+    def unit(self):
+        return self._unit
+
+    ##############################################
+
     def __float__(self):
         return self._value
 
     ##############################################
 
     def __str__(self):
-        return self._unit
+        return '{:g}{}'.format(self._value, self._unit)
 
 ####################################################################################################
 
@@ -278,23 +289,10 @@ class PercentLengthAttribute(InheritAttribute):
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
-    ##############################################
-
-    @classmethod
-    def _to_xml(cls, value):
-
-        # Fixme: ok ???
-        if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
-        elif isinstance(value, UnitValue):
-            return '{}{}'.format(float(value), value.unit)
-        else:
-            return str(value)
-
 ####################################################################################################
 
 class ColorMixin:
-- 
2.43.0


From 8557e4118d1655a869ad585407026d7a4876e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 025/101] fix: lists of SVG transforms, uniform scale and
 matrix output

---
 Patro/FileFormat/Svg/SvgFormat.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 2690ffe..4a96842 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -442,15 +442,15 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            # transform_type(values) separated by comma and/or white space
+            *items, tail = value.split(')')
+            if tail.strip(' ,\n\t'):
+                raise ValueError("Invalid transform '{}'".format(value))
+            for item in items:
+                transform_type, values = item.split('(')
+                transform_type = transform_type.strip(' ,\n\t')
+                values = [float(x) for x in values.replace(',', ' ').split()]
                 transforms.append((transform_type, values))
-                # Fixme:
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -459,9 +459,10 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        array = value.to_list()
+        # column-wise, without the last row
+        return 'matrix({})'.format(' '.join([str(array[i]) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
@@ -482,7 +483,8 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(complete(values, 2))
                 transform = AffineTransformation2D.Translation(vector)
             elif name == 'scale':
-                transform = AffineTransformation2D.Scale(*values)
+                x_scale, *y_scale = values
+                transform = AffineTransformation2D.Scale(x_scale, *(y_scale or (x_scale,)))
             elif name == 'rotate':
                 angle, *vector = complete(values, 3)
                 vector = Vector2D(vector)
@@ -496,7 +498,8 @@ class TransformAttribute(StringAttribute):
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last transform of the list is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From aeff26244194a62fe554ced4a5ab79c32b472c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 026/101] fix: SVG smooth curves and compact path data

---
 Patro/FileFormat/Svg/SvgFormat.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 4a96842..84a19dc 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -945,7 +945,7 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
@@ -963,15 +963,20 @@ class PathDataAttribute(StringAttribute):
 
         # Replace comma separator by space
         cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
+        # Add space around letter and before sign, except for an exponent
         data_path = ''
+        previous = ' '
         for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
+            if c.isalpha() and c not in 'eE':
+                data_path += ' ' + c + ' '
+            elif c in '+-' and previous not in 'eE':
+                data_path += ' ' + c
+            else:
+                data_path += c
+            previous = c
         # Convert float values
         parts = []
-        for part in split_space_list(cleaned_svg_path):
+        for part in data_path.split():
             if not(len(part) == 1 and part.isalpha()):
                 part = float(part)
             parts.append(part)
@@ -989,6 +994,8 @@ class PathDataAttribute(StringAttribute):
                     raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
                 number_of_args = cls.NUMBER_OF_ARGS[command_lower]
                 i += 1 # move to first arg
+            elif not number_of_args:
+                raise ValueError("Unexpected value in path:\n{}".format(svg_path))
             # else repeated instruction
             next_i = i + number_of_args
             args = parts[i:next_i]
@@ -1058,11 +1065,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
-- 
2.43.0


From 2ee111364be0cf6ef6a86f801fb3d09ab85da50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 027/101] fix: tags of the SVG polygon and text span

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 84a19dc..9403662 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1129,7 +1129,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
@@ -1244,7 +1244,7 @@ class TextSpan(Text, XmlObjectAdaptator):
 
     """Identical to the <text> element but can be nested inside text tags and inside itself"""
 
-    __tag__ = 'textspan'
+    __tag__ = 'tspan'
 
 ####################################################################################################
 
-- 
2.43.0


From 66af150e866291f1031b91427a2135034d6084fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 028/101] fix: SVG items inherit the properties they do not set

---
 Patro/FileFormat/Svg/SvgFile.py   | 9 ++++++---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..6b6a3c2 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -122,17 +122,20 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                else:
+                elif value is not None:
+                    # else the property is inherited
                     setattr(self, state, self.to_python(value))
 
         # Merge style
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip():
+                    continue
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
-                    self.transform = self.transform * value
+                    self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
                 else:
                     setattr(self, state, self.to_python(value))
 
diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 9403662..c529567 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -307,9 +307,9 @@ class ColorMixin:
 class StrokeMixin:
 
     __attributes__ = (
-        StringAttribute('stroke_line_cap', 'stroke-linecap'),
-        StringAttribute('stroke_line_join', 'stroke-linejoin'),
-        NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
+        StringAttribute('stroke_linecap', 'stroke-linecap'),
+        StringAttribute('stroke_linejoin', 'stroke-linejoin'),
+        NumberAttribute('stroke_miterlimit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
         FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
-- 
2.43.0


From 643eb3785af786de9e19dad978b462ba8f027b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 029/101] fix: SVG property in exponent notation

---
 Patro/FileFormat/Svg/SvgFile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 6b6a3c2..663cb07 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -67,11 +67,11 @@ class RenderState:
                 return None
             else:
                 try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
+                    return int(value)
+                except ValueError:
+                    pass
+                try:
+                    return float(value)
                 except ValueError:
                     pass
 
-- 
2.43.0


From 581ce1445bc25bf06607c544ee3bf8fa833f1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 030/101] fix: the state of a SVG group ends with the group

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 663cb07..a080229 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -286,6 +286,8 @@ class SvgDispatcher:
 
         self.on_root(element)
 
+        self._state_stack.pop()
+
     ##############################################
 
     def on_graphic_item(self, element):
-- 
2.43.0


From 8829fe74b8533c121bbf60df50d4c8dd72d5f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 031/101] fix: SVG view box is given by its size

---
 Patro/FileFormat/Svg/SvgFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index a080229..b6dbe45 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -362,8 +362,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        x_inf, y_inf, width, height = svg_root.view_box
+        self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From c3e81beb6301bc26cae768be38940ce37a1e9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 032/101] fix: an atomic counter returns the value it
 incremented to

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From 51b35404438a2dd74ceb9581b12c572f94fd293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 033/101] fix: singletons are created once whatever the thread,
 monostate accepts arguments

---
 Patro/Common/Singleton.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Patro/Common/Singleton.py b/Patro/Common/Singleton.py
index 9fa4ef1..f22ac3f 100644
--- a/Patro/Common/Singleton.py
+++ b/Patro/Common/Singleton.py
@@ -73,13 +73,15 @@ class singleton:
         # print('singleton __init__: On @ decoration', cls, sep='\n... ')
         self._cls = cls
         self._instance = None
+        self._rlock = threading.RLock()
 
     ##############################################
 
     def __call__(self, *args, **kwargs):
         # print('singleton __call__: On instance creation', self, args, kwargs, sep='\n... ')
-        if self._instance is None:
-            self._instance = self._cls(*args, **kwargs)
+        with self._rlock:
+            if self._instance is None:
+                self._instance = self._cls(*args, **kwargs)
         return self._instance
 
 ####################################################################################################
@@ -91,10 +93,12 @@ def singleton_func(cls):
     """
     # print('singleton_func: On @ decoration', cls, sep='\n... ')
     instances = {}
+    rlock = threading.RLock()
     def get_instance(*args, **kwargs):
         # print('singleton_func: On instance creation', cls, sep='\n... ')
-        if cls not in instances:
-            instances[cls] = cls(*args, **kwargs)
+        with rlock:
+            if cls not in instances:
+                instances[cls] = cls(*args, **kwargs)
         return instances[cls]
     return get_instance
 
@@ -111,6 +115,6 @@ class monostate:
 
     def __new__(cls, *args, **kwargs):
         # print('monostate __new__:', cls, args, kwargs, sep='\n... ')
-        obj = super(monostate, cls).__new__(cls, *args, **kwargs)
+        obj = super(monostate, cls).__new__(cls)
         obj.__dict__ = cls._shared_state
         return obj
-- 
2.43.0


From a4ec60e3ade41318bea51a8e69e1a3e29f224dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 034/101] fix: ancestors of a graph node

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..4819e5f 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -58,8 +58,8 @@ class DirectedAcyclicGraphNode:
         return self._data
 
     @property
-    def ancestor(self):
-        return self._ancestor
+    def ancestors(self):
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From 8e7bdfaa334294e5505e851e1947af8251bb7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 035/101] fix: search in a single directory and date of a
 datetime

---
 Patro/Common/Datetime.py | 4 +++-
 Patro/Common/Path.py     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Datetime.py b/Patro/Common/Datetime.py
index 9efa740..f291281 100644
--- a/Patro/Common/Datetime.py
+++ b/Patro/Common/Datetime.py
@@ -27,7 +27,9 @@ from datetime import datetime, date
 ####################################################################################################
 
 def ensure_date(x: date | str) -> date:
-    if isinstance(x, date):
+    if isinstance(x, datetime):
+        return x.date()   # a datetime is a date
+    elif isinstance(x, date):
         return x
     else:
         # "1970-01-01"
diff --git a/Patro/Common/Path.py b/Patro/Common/Path.py
index 0ddcf5b..e3fd99a 100644
--- a/Patro/Common/Path.py
+++ b/Patro/Common/Path.py
@@ -39,7 +39,7 @@ def parent_directory_of(file_name, step=1):
 ####################################################################################################
 
 def find(file_name, directories):
-    if isinstance(directories, bytes):
+    if isinstance(directories, (str, bytes)):
         directories = (directories,)
     for directory in directories:
         for directory_path, sub_directories, file_names in os.walk(directory):
-- 
2.43.0


From 5eb55312fc837227dfb8aab12550ce6b9a17dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 036/101] fix: roots of a normalised cubic equation

---
 Patro/Common/Math/Root.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 6d22320..036b6eb 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -142,17 +142,11 @@ def cubic_root_normalised(a, b, c):
 
     q = (a**2 - 3*b) / 9
     q3 = q**3
-    m2sqrtQ = -2 * sqrt(q)
     r = (2*a**3 - 9*a*b + 27*c) / 54
     r2 = r**2
-    d = - sign(r)*((abs(r) + sqrt(r2-q3))**1/3) # Fixme: sqrt ??
-
-    if d == 0:
-        e = 0
-    else:
-        e = q/d
 
     if r2 < q3:
+        m2sqrtQ = -2 * sqrt(q)
         t = acos(r/sqrt(q3))
         return [
             m2sqrtQ * cos(t/3)          - a/3,
@@ -160,6 +154,11 @@ def cubic_root_normalised(a, b, c):
             m2sqrtQ * cos((t - 2*pi)/3) - a/3,
         ]
     else:
+        d = - sign(r) * (abs(r) + sqrt(r2-q3))**(1/3)
+        if d == 0:
+            e = 0
+        else:
+            e = q/d
         return [d + e - a/3]
 
 ####################################################################################################
-- 
2.43.0


From 777905d276cbe077e7038ef89d486cbd55626e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 037/101] fix: encoding of the measurement files and precision
 of the measurements

---
 Patro/Measurement/Measurement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..328786d 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression)   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From a57fc79fd505adbee6cd32ea8f891287ce769e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 038/101] fix: measurements defined from other expressions, in
 any order

---
 Patro/Measurement/Measurement.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 328786d..0b12d59 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,10 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            expression = self._measurements.subs(self)
+            if expression.free_symbols:
+                return expression   # a measurement is not yet known
+            self._evaluated_expression = expression
         return self._evaluated_expression
 
     @property
@@ -207,7 +210,14 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        # a measurement can be defined from measurements which are also expressions
+        expression = measurement.expression
+        for _ in self._expressions:
+            substituted = expression.subs(self._expressions)
+            if substituted == expression:
+                break
+            expression = substituted
+        return expression
 
     ##############################################
 
-- 
2.43.0


From 349a8fdeaf34a09d61264fce45a52b5ec5ad4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 039/101] fix: unknown measurements and colours are missing
 attributes

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 6 +++++-
 Patro/Measurement/Measurement.py          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..2f497cc 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -239,7 +239,11 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        # Note: called for the attributes which are not found
+        colors = self.__dict__.get('_colors', {})
+        if name in colors:
+            return colors[name]
+        raise AttributeError(f'Unknown color {name}')
 
     ##############################################
 
diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 0b12d59..5e3a7ee 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -192,7 +192,11 @@ class MeasurementSet:
         return self._measurements[name]
 
     def __getattr__(self, name: str) -> Measurement:
-        return self._measurements[name]
+        # Note: called for the attributes which are not found
+        measurements = self.__dict__.get('_measurements', {})
+        if name in measurements:
+            return measurements[name]
+        raise AttributeError(f'Unknown measurement {name}')
 
     # Note: __setattr__ is called for by setattr
 
-- 
2.43.0


From 28ff5239985e83cfecb7bc3c7775c96ec021f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 040/101] fix: copy of a colour and integer components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 2f497cc..36947a9 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return int(round(x*255))
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From de90e71fce5a1600462a8a7245b177bc2f978c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 041/101] fix: a Valentina custom measurement is stored once
 and returned

---
 Patro/Measurement/ValentinaMeasurement.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4557f3c..ee24dd0 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -47,7 +47,7 @@ class ValentinaMeasurement(Measurement):
     @classmethod
     def replace_custom_prefix(cls, string: str) -> str:
         # Fixme: how to only replace when there is no clash ?
-        return string.replace('@', cls.CUSTOM_PREFIX)
+        return str(string).replace('@', cls.CUSTOM_PREFIX)
 
     ##############################################
 
@@ -65,7 +65,8 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
@@ -91,8 +92,6 @@ class ValentinaMeasurements(MeasurementSet):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> None:
-        # Fixme: name ?
-        measurement = super().add(*args, **kgwars)
-        if measurement.is_custom():
-            self._measurements[measurement.valentina_name] = measurement
+    def __getitem__(self, name: str) -> ValentinaMeasurement:
+        # a custom measurement can be accessed using its Valentina name
+        return super().__getitem__(ValentinaMeasurement.replace_custom_prefix(name))
-- 
2.43.0


From 0ab8b28d7ea5e1d1fb2752cc804ceae8e2cbb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 042/101] fix: the ids of a sketch are independent of the other
 sketches and of the order

---
 Patro/Common/Object.py           | 5 ++++-
 Patro/Pattern/SketchOperation.py | 5 ++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/Common/Object.py b/Patro/Common/Object.py
index 0502548..ff7350c 100644
--- a/Patro/Common/Object.py
+++ b/Patro/Common/Object.py
@@ -72,7 +72,10 @@ class ObjectGlobalIdMixin:
 
         # Note: sub-classes share the same counter !
         if id is not None:
-            ObjectGlobalIdMixin.__object_counter__.set(id)
+            try:
+                ObjectGlobalIdMixin.__object_counter__.set(id)
+            except ValueError:
+                pass # the next generated id is already greater
             self._id = id
         else:
             self._id = ObjectGlobalIdMixin.__object_counter__.increment()
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..72bcd42 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -80,10 +80,9 @@ class SketchOperation(ObjectGlobalIdMixin):
         # Valentina set an incremental integer id for each calculation (entity)
         # id is used to identify operation, see _get_operation
         # A calculation which generate a point has also a name
-        try:
-            super().__init__(id)
-        except ValueError:
+        if id is not None and sketch.has_operation_id(id):
             raise NameError("id {} is already attributed".format(id))
+        super().__init__(id)
 
         self._dag_node = self._dag.add_node(pyid(self), data=self)
         self._dependencies = set()
-- 
2.43.0


From cedc25d318f3eeba47455c781f611396b059fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 043/101] fix: personal data and unit of the Valentina
 measurement files

---
 Patro/FileFormat/Valentina/Measurement.py | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..d4c64a9 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -88,21 +88,25 @@ class VitFileInternal(XmlFileMixin):
 
         measurements = self.measurements
 
-        version = self.get_xpath_element(tree, 'version').text
+        # version = self.get_text_element(tree, 'version')
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        self.unit = self.get_text_element(tree, 'unit')
+        self.pattern_making_system = self.get_text_element(tree, 'pm_system')
+        measurements.unit = self.unit
+        measurements.pattern_making_system = self.pattern_making_system
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-        # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
-        personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
-        personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        if personal_element is not None:
+            # customer replaced last_name first_name
+            personal.customer = self.get_text_element(personal_element, 'customer')
+            personal.last_name = self.get_text_element(personal_element, 'family-name') or ''
+            personal.first_name = self.get_text_element(personal_element, 'given-name') or ''
+            personal.birth_date = self.get_text_element(personal_element, 'birth-date')
+            gender = self.get_text_element(personal_element, 'gender')
+            personal.gender = Gender[gender.upper()] if gender else Gender.UNKNOWN
+            personal.email = self.get_text_element(personal_element, 'email') or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-- 
2.43.0


From 3db91b1e8729d97933ba72a8bc86554cf19a51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 044/101] fix: sizes and rotation of the Valentina labels are
 decimal numbers

---
 Patro/FileFormat/Valentina/VitFormat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..9fdefce 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -785,7 +785,7 @@ class Detail(MxMyMixin, XmlObjectAdaptator):
         IntAttribute('id'),
         IntAttribute('version'),
         BoolAttribute('forbidFlipping'),
-        IntAttribute('width'),
+        FloatAttribute('width'),
         BoolAttribute('united'),
         StringAttribute('name'),
         BoolAttribute('inLayout'),
@@ -817,7 +817,7 @@ class VisibleRotationMixin:
 
     __attributes__ = (
         BoolAttribute('visible'),
-        IntAttribute('rotation'),
+        FloatAttribute('rotation'),
     )
 
 ####################################################################################################
@@ -825,8 +825,8 @@ class VisibleRotationMixin:
 class HeightWidthMixin:
 
     __attributes__ = (
-        IntAttribute('height'),
-        IntAttribute('width'),
+        FloatAttribute('height'),
+        FloatAttribute('width'),
     )
 
 ####################################################################################################
@@ -863,7 +863,7 @@ class DetailGrainline(MxMyMixin, VisibleRotationMixin, XmlObjectAdaptator):
 
     __attributes__ = (
         IntAttribute('arrows'),
-        IntAttribute('length'),
+        FloatAttribute('length'),
     )
 
 ####################################################################################################
-- 
2.43.0


From 50c5b3476f68a37b14d24693557802c717a292ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 045/101] fix: Valentina elements which are not implemented are
 skipped

---
 Patro/FileFormat/Valentina/Pattern.py   | 36 ++++++++++++++++---------
 Patro/FileFormat/Valentina/VitFormat.py |  4 ++-
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..478f193 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -72,6 +72,11 @@ class Modeling:
 
     ##############################################
 
+    def __contains__(self, id):
+        return id in self._id_map
+
+    ##############################################
+
     def add(self, item):
         self._id_map[item.id] = item
 
@@ -87,7 +92,7 @@ class Dispatcher:
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if tag_cls is not None:
             return tag_cls(element)
         else:
@@ -103,7 +108,7 @@ class CalculationDispatcher(Dispatcher):
 
     __TAGS__ = {
         'arc': None,
-        'ellipse': None,
+        'elArc': None,
         'line': Line,
         'operation': None,
         'point': Point,
@@ -144,9 +149,9 @@ class CalculationDispatcher(Dispatcher):
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if hasattr(tag_cls, '__TYPES__'):
-            cls = tag_cls.__TYPES__[element.attrib['type']]
+            cls = tag_cls.__TYPES__.get(element.attrib['type'], None)
         else:
             cls = tag_cls
         if cls is not None:
@@ -311,15 +316,18 @@ class ValFileReaderInternal(XmlFileMixin):
                 xml_calculation = _calculation_dispatcher.from_xml(element)
                 operation = xml_calculation.to_operation(sketch)
                 self._logger.info('Add operation {}'.format(operation))
-            except NotImplementedError:
+            except (NotImplementedError, KeyError): # or depends of a not implemented one
                 self._logger.warning('Not implemented calculation\n' +  str(etree.tostring(element)))
         sketch.eval()
 
         modeling = Modeling()
         for element in self.get_xpath_element(piece, 'modeling'):
-            xml_modeling_item = _modeling_dispatcher.from_xml(element)
-            modeling.add(xml_modeling_item)
-            self._logger.info('Modeling {}'.format(xml_modeling_item))
+            try:
+                xml_modeling_item = _modeling_dispatcher.from_xml(element)
+                modeling.add(xml_modeling_item)
+                self._logger.info('Modeling {}'.format(xml_modeling_item))
+            except NotImplementedError:
+                self._logger.warning('Not implemented modeling\n' +  str(etree.tostring(element)))
 
         # details = []
         for detail_element in self.get_xpath_element(piece, 'details'):
@@ -338,13 +346,17 @@ class ValFileReaderInternal(XmlFileMixin):
                     xml_node = DetailNode(node)
                     xml_detail.append_node(xml_node)
             else:
-                xml_modeling_item = _detail_dispatcher.from_xml(element)
-                # Fixme: xml_detail. = xml_modeling_item
-                print(xml_modeling_item)
+                try:
+                    xml_modeling_item = _detail_dispatcher.from_xml(element)
+                    # Fixme: xml_detail. = xml_modeling_item
+                    print(xml_modeling_item)
+                except NotImplementedError:
+                    self._logger.warning('Not implemented detail\n' +  str(etree.tostring(element)))
 
         for node, modeling_item in xml_detail.iter_on_nodes():
             # print(node.object_id, '->', modeling_item, '->', modeling_item.object_id)
-            print(node, '->\n', modeling_item, '->\n', scope.sketch.get_operation(modeling_item.object_id))
+            if scope.sketch.has_operation_id(modeling_item.object_id):
+                print(node, '->\n', modeling_item, '->\n', scope.sketch.get_operation(modeling_item.object_id))
 
 ####################################################################################################
 
diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 9fdefce..98283c2 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -809,7 +809,9 @@ class Detail(MxMyMixin, XmlObjectAdaptator):
 
     def iter_on_nodes(self):
         for node in self._nodes:
-            yield node, self._modeling[node.object_id]
+            # some kinds of modeling item are not implemented
+            if node.object_id in self._modeling:
+                yield node, self._modeling[node.object_id]
 
 ####################################################################################################
 
-- 
2.43.0


From c6f41ede1de1cf37378914c84ee8c10c0ecfc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 046/101] fix: dependencies of the expressions on the angle of
 a line and on the curves

---
 Patro/Pattern/Calculator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..5e5cadd 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -66,12 +67,12 @@ class NodeVisitor(ast.NodeVisitor):
         #   https://greentreesnakes.readthedocs.io/en/latest/index.html
 
         function = node.func
-        if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
-            dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
-                for arg in node.args:
-                    dependence = self._calculator._name_to_point(arg.s)
-                    self._dependencies.append(dependence)
+        if (isinstance(function, ast.Attribute)
+            and isinstance(function.value, ast.Name) and function.value.id == '__calculator__'):
+            # all the functions, e.g. __calculator__._function_Line('A1', 'A2'), take points
+            for arg in node.args:
+                dependence = self._calculator._name_to_point(arg.value)
+                self._dependencies.append(dependence)
 
         self.generic_visit(node)
 
-- 
2.43.0


From 068fe7957cde8c22741f616120823e96c8460da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 047/101] fix: expressions with several custom measurements or
 with names prefix of each other

---
 Patro/Pattern/Calculator.py | 86 +++++++++++++------------------------
 1 file changed, 29 insertions(+), 57 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 5e5cadd..f669fa0 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -239,22 +239,36 @@ class Expression:
 
     ##############################################
 
-    def _find_identifier(self, prefix, start=0):
+    __FUNCTIONS__ = (
+        'Angle1Spl_',
+        'Angle2Spl_',
+        'AngleLine_',
+        'CurrentLength',
+        'C1LengthSpl_',
+        'C2LengthSpl_',
+        'Line_',
+        'Spl_',
+    )
 
-        """Find an identifier in a Python expression"""
+    def _pythonise_identifier(self, match):
 
-        expression = self._expression
-        start = expression.find(prefix, start)
-        if start is -1:
-            return None, None
-        index = start + 1
-        while index < len(expression):
-            c = expression[index]
-            if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9' or c in '_':
-                index += 1
-            else:
-                break
-        return expression[start:index], index + 1
+        """Return the Python code for an identifier of the expression"""
+
+        identifier = match.group()
+
+        # Python don't accept identifier starting with @
+        # Replace @foo by the name of the custom measurement
+        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
+        if identifier.startswith('@'):
+            return self._calculator.measurements[identifier].name
+
+        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
+        for function in self.__FUNCTIONS__:
+            if identifier.startswith(function) if function.endswith('_') else identifier == function:
+                function, *args = identifier.split('_')
+                return '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
+
+        return identifier
 
     ##############################################
 
@@ -263,49 +277,7 @@ class Expression:
         expression = self._expression
         self._logger.debug("expression '{}'".format(expression))
 
-        # Python don't accept identifier starting with @
-        # Replace @foo by __custom__foo
-        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
-        if '@' in expression:
-            custom_measurements = []
-            start = 0
-            while True:
-                name, start = self._find_identifier('@', start)
-                if name is None:
-                    break
-                else:
-                    custom_measurements.append(name)
-            for measurement in custom_measurements:
-                py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
-
-        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
-        functions = []
-        for function in (
-                'Angle1Spl_',
-                'Angle2Spl_',
-                'AngleLine_',
-                'CurrentLength',
-                'C1LengthSpl_',
-                'C2LengthSpl_',
-                'Line_',
-                'Spl_',
-        ):
-            start = 0
-            while True:
-                name, start = self._find_identifier(function, start)
-                if name is None:
-                    break
-                else:
-                    functions.append(name)
-        # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
-            parts = function_call.split('_')
-            function = parts[0]
-            args = parts[1:]
-            pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
-            # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+        expression = re.sub(r'@?[^\W\d]\w*', self._pythonise_identifier, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From b3f0298817371c5ba3783d5d390fdcc5553325cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 048/101] fix: Python code of the line style and colour of an
 operation

---
 Patro/Pattern/SketchOperation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 72bcd42..b539c7f 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import Color, Colors, StrokeStyle
 from .Calculator import Expression
 
 # Rename id buitin
@@ -169,8 +169,12 @@ class SketchOperation(ObjectGlobalIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = "Color('{}')".format(value)
             else:
-                value_str = ''
+                value_str = repr(value)
             values.append(value_str)
         kwargs = ', '.join(['sketch'] + [key + '=' + value for key, value in zip(args, values)])
         return self.__class__.__name__ + '(' + kwargs + ')'
-- 
2.43.0


From 5092fd5efdd52db2882c2316e67474864dec663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 049/101] fix: colour of a Valentina spline

---
 Patro/FileFormat/Valentina/VitFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 98283c2..013e82e 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -303,7 +303,7 @@ class CalculationMixin:
     ##############################################
 
     @classmethod
-    def from_operation(operation):
+    def from_operation(cls, operation):
         raise NotImplementedError
 
 ####################################################################################################
@@ -642,7 +642,7 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From beeef30929e53e8ca07064bd5db70971053e82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 050/101] fix: removed, modified and positioned items of a
 scene

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 8 ++++----
 Patro/GraphicEngine/GraphicScene/Scene.py            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 4bdf175..3f989c8 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -136,10 +136,10 @@ class GraphicItem:
     def dirty(self, value: bool) -> None:
         if bool(value):
             self._dirty = True
-        else:
-            self._dirty = True
             self._geometry = None
             self._bounding_box = None
+        else:
+            self._dirty = False
 
     ##############################################
 
@@ -212,8 +212,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..e589c2e 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From 5438926906f4a35cbadc49ad3b0c009a21a258c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 051/101] fix: paths and arcs added to a scene

---
 .../GraphicEngine/GraphicScene/GraphicItem.py | 18 ++++++--
 Patro/GraphicEngine/GraphicScene/Scene.py     | 41 +++++++++++--------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..a72c565 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,8 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        domain = AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain=domain)
 
 ####################################################################################################
 
@@ -433,8 +434,19 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        cast = self._scene.cast_position
+        path = Path2D(self.casted_position)
+        for segment in self._segments:
+            positions = [cast(position) for position in segment.positions]
+            if isinstance(segment, LinearSegment):
+                path.line_to(*positions, absolute=True)
+            elif isinstance(segment, QuadraticSegment):
+                path.quadratic_to(*positions, absolute=True)
+            elif isinstance(segment, CubicSegment):
+                path.cubic_to(*positions, absolute=True)
+        if self._closed:
+            path.close()
+        return path
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index e589c2e..ca9fd87 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -308,6 +308,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
@@ -316,7 +319,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -408,16 +411,18 @@ class GraphicSceneScope:
                 # if segment.radius is not None:
                 #     add_bulge(segment)
                 item.line_to(segment.stop_point)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
-                item.quadratic_to(segment.point1, segment.point2)
-            elif isinstance(segment, Path.CubicBezierSegment):
-                item.cubic_to(segment.point1, segment.point2, segment.point3)
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
+                item.quadratic_to(*segment.points[1:])
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
+                item.cubic_to(*segment.points[1:])
             elif isinstance(segment, Path.ArcSegment):
-                pass
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+                geometry = segment.geometry
+                if isinstance(geometry, Segment.Segment2D):
+                    # a radius is zero
+                    item.line_to(segment.stop_point)
+                else:
+                    for curve in geometry.to_bezier():
+                        item.cubic_to(*list(curve.points)[1:])
 
         if path.is_closed:
             item.close()
@@ -468,6 +473,10 @@ class GraphicSceneScope:
             # add_segment(Segment.Segment2D(*segment.points))
             ellipse = segment.geometry
             # print(ellipse, ellipse.domain)
+            if isinstance(ellipse, Segment.Segment2D):
+                # a radius is zero
+                add_segment(segment)
+                return
             arc_item = self.ellipse(
                 ellipse.center,
                 ellipse.radius_x,
@@ -498,16 +507,14 @@ class GraphicSceneScope:
                 #     add_bulge(start_segment)
                 #     add_segment(start_segment)
                 add_segment(segment)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
                 add_quadratic(segment)
-            elif isinstance(segment, Path.CubicBezierSegment):
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
                 add_cubic(segment)
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+
+        return items
 
     ##############################################
 
@@ -539,7 +546,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From fe6ad1703bb51fe0c4fcffac5250cd617db06d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 052/101] fix: copy of a graphic style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
@@ -203,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From 9b8e55abac72a09e5a2d9203839980239659f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 053/101] fix: grid of the tiled pages

---
 Patro/GraphicEngine/Painter/Painter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..db484f1 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + Vector2D(area_vector.x * c, area_vector.y * r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 7a6661a03feb0978f128b958c24c5a2321980544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 054/101] fix: errors raised by a painter are not reported as
 missing items

---
 Patro/GraphicEngine/Painter/Painter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index db484f1..677b02e 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -113,10 +113,10 @@ class Painter:
 
         # Fixme: GraphicItemScope
         for item in self._scene.z_value_iter():
-            try:
-                self.__paint_method__[item.__class__](self, item)
-            except KeyError:
+            method = self.__paint_method__.get(item.__class__)
+            if method is None:
                 raise NotImplementedError('{} is not implemented in painter'.format(item.__class__))
+            method(self, item)
 
     ##############################################
 
@@ -173,6 +173,9 @@ class Painter:
     def paint_QuadraticBezierItem(self, item):
         raise NotImplementedError
 
+    def paint_RectangleItem(self, item):
+        raise NotImplementedError
+
     def paint_SegmentItem(self, item):
         raise NotImplementedError
 
-- 
2.43.0


From 558bc5a972990aa94fd0bbada0d2fe338c9e358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 055/101] fix: TikZ style of the dash dot dot, invisible and
 uncoloured lines

---
 Patro/GraphicEngine/TeX/Tikz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..a1f7989 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,8 +32,9 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 2mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'draw=none',
         StrokeStyle.SolidLine: 'solid',
     }
 
@@ -41,7 +42,8 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        stroke_color = color.name if color is not None else None
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
-- 
2.43.0


From 7b891fcfd306bddf889d193f1335a9f2d446b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 056/101] fix: output directory and encoding of the TeX
 document

---
 Patro/GraphicEngine/TeX/Document.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..c89a4ed 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -60,7 +60,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
@@ -104,8 +104,9 @@ class Document:
 
     def write(self):
 
-        with open(self.tex_filename, 'w') as fd:
-            fd.write(str(self))
+        source = str(self)
+        with open(self.tex_filename, 'w', encoding='utf-8') as fd:
+            fd.write(source)
 
     ##############################################
 
-- 
2.43.0


From c2570c8d185739a1efb91b7a34da6fe64341c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 057/101] fix: default driver of the PDF painter

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..12ebc0e 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -161,6 +161,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From ee4d531e071bd41a38172adb06c334e1d59608bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 058/101] fix: position and radius of a SVG rectangle are
 optional

---
 Patro/FileFormat/Svg/SvgFormat.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c529567..12a8748 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1174,12 +1174,13 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
-        if radius_y == 0:
+        # a missing radius is the same as the other one
+        radius = radius_y if radius_y is not None else radius_x
+        if radius == 0:
             radius = None
-        else:
-            radius = radius_y
 
-        point = Vector2D(self.x, self.y)
+        # a missing coordinate is zero
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 33e16b0dac623e0e8973e30b61a6b75ff86e255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 059/101] fix: attributes of an empty XML object

---
 Patro/Common/Xml/Objectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 94c431d..d79f9fa 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -253,7 +253,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
-- 
2.43.0


From dfe7d96c54e963bd0b493e6984c1baa28b197b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 060/101] fix: conversions of the typographic units

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..16ca11c 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,14 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    INCH_2_POINT     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    INCH_2_TEX_POINT = 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM / INCH_2_POINT
 
     MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    POINT_2_INCH  = 1 / INCH_2_POINT
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
@@ -55,7 +55,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From ac0ddff1cde235bf5c5f6e5f4081654a8c7055ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 061/101] fix: TikZ style of a colour without name

---
 Patro/GraphicEngine/TeX/Tikz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index a1f7989..c81cd88 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -43,7 +43,12 @@ class TikzFigure(Environment):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
         color = path_syle.stroke_color
-        stroke_color = color.name if color is not None else None
+        if color is None:
+            stroke_color = None
+        elif color.name is None:
+            stroke_color = 'color={{rgb,255:red,{0.red};green,{0.green};blue,{0.blue}}}'.format(color)
+        else:
+            stroke_color = color.name
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
-- 
2.43.0


From a8080c140c351c93373d068b98f6ba8715c94551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 062/101] fix: dashed, invisible and uncoloured lines in
 Matplotlib

---
 Patro/GraphicEngine/Painter/MplPainter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..3c11f06 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -39,12 +39,12 @@ _module_logger = logging.getLogger(__name__)
 class MplPainter(Painter):
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'none',
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 2, 1, 2, 1, 2)),
     }
 
     ##############################################
@@ -83,7 +83,8 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        color = str(color) if color is not None else 'none'
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From 5eff02426e9222fe3d5e4abfc3c45962315be68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 063/101] fix: the SVG drawing starts at the top left corner of
 the page

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..bf57879 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,9 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        # move the top left corner to the origin, then scale
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From 602e6af98a60c5dfb249e8e19f054cc3aae15890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 064/101] fix: SVG circles

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index bf57879..9dda884 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -115,7 +115,7 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
-- 
2.43.0


From d68e9324a8324bd1094b333fd27278d717bb67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 065/101] fix: SVG stroke of the invisible and uncoloured lines

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 9dda884..709c9cc 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -93,7 +93,11 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        if color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            color = 'none'
+        else:
+            color = str(color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From 654ea3c9c34c08e6590604ee6f14fa6081d08bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 066/101] fix: SVG output of the curves

---
 Patro/FileFormat/Svg/SvgFormat.py         | 43 ++++++++++++++++++++++-
 Patro/GeometryEngine/Path.py              | 22 ++++++++++++
 Patro/GraphicEngine/Painter/SvgPainter.py |  2 +-
 3 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 12a8748..76c48f9 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -78,7 +78,14 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import (
+    ArcSegment,
+    CubicBezierSegment,
+    Path2D,
+    QuadraticBezierSegment,
+    StringedCubicBezierSegment,
+    StringedQuadraticBezierSegment,
+)
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -959,6 +966,10 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def from_xml(cls, svg_path):
 
+        if isinstance(svg_path, Path2D):
+            # Python value
+            return svg_path
+
         # cls._logger.info('SVG path:\n'+ svg_path)
 
         # Replace comma separator by space
@@ -1013,9 +1024,39 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def from_geometry(cls, path):
+
+        """Return the absolute commands of a path"""
+
+        commands = [('M', list(path.p0))]
+        for part in path:
+            if isinstance(part, ArcSegment):
+                commands.append((
+                    'A',
+                    [part.radius_x, part.radius_y, part.angle, int(part.large_arc), int(part.sweep),
+                     *part.stop_point],
+                ))
+            elif isinstance(part, (CubicBezierSegment, StringedCubicBezierSegment)):
+                commands.append(('C', [x for point in part.points[1:] for x in point]))
+            elif isinstance(part, (QuadraticBezierSegment, StringedQuadraticBezierSegment)):
+                commands.append(('Q', [x for point in part.points[1:] for x in point]))
+            elif part.radius is not None:
+                raise NotImplementedError('path with rounded corners')
+            elif part is not path.stop_segment or not path.is_closed:
+                commands.append(('L', list(part.stop_point)))
+        if path.is_closed:
+            commands.append(('Z', []))
+        return commands
+
+    ##############################################
+
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.from_geometry(value)
+
         path_data = ''
         for command in value:
             if path_data:
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 2048918..5d29cc2 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -851,6 +851,28 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    @property
+    def radius_x(self):
+        return self._radius_x
+
+    @property
+    def radius_y(self):
+        return self._radius_y
+
+    @property
+    def angle(self):
+        return self._angle
+
+    @property
+    def large_arc(self):
+        return self._large_arc
+
+    @property
+    def sweep(self):
+        return self._sweep
+
+    ##############################################
+
     def apply_transformation(self, transformation):
         origin = transformation * Vector2D(0, 0)
         x_axis = transformation * Vector2D.from_polar(self._radius_x, self._angle) - origin
diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 709c9cc..239f22f 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -144,5 +144,5 @@ class SvgPainter(Painter):
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 1ccfea6356fd54b96115640e12b99fdb2256c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 067/101] fix: distance to a polygon of a scene

---
 Patro/GeometryEngine/Polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 48dd1c6..aab7dfa 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -152,6 +152,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance of the point to the outline of the polygon."""
+        return min(edge.distance_to_point(point) for edge in self.edges)
+
+    ##############################################
+
     def _test_is_simple(self):
 
         edges = self.edges # must be a list !!!
-- 
2.43.0


From 82049d5837668fe089aaa61756134881961ed97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 068/101] fix: items whose geometry was used before the update
 of the scene index

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index ca9fd87..e005a0c 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -220,7 +220,9 @@ class GraphicSceneScope:
 
     def update_rtree(self) -> None:
         for item in self._items.values():
-            if item.dirty:
+            # an item is not dirty as soon as its geometry is known
+            bounding_box = self._item_bounding_box_cache.get(id(item), None)
+            if item.dirty or bounding_box != item.bounding_box.bounding_box:
                 self.update_rtree_item(item)
 
     ##############################################
-- 
2.43.0


From 3517803c172ce27762540088a07721a0e508acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 069/101] fix: line types, colours and texts of the DXF files

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..ab66b86 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -67,14 +67,13 @@ class EzdxfPainter(DxfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
     __COLOR__ = {
-        None : None,
         'black': 0,
     }
 
@@ -85,7 +84,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=True) # with the line types
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
@@ -112,8 +111,13 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
+        stroke_color = path_style.stroke_color
+        if stroke_color.name not in self.__COLOR__:
+            # true color (AutoCAD R2004)
+            true_color = (stroke_color.red << 16) + (stroke_color.green << 8) + stroke_color.blue
+            return {'linetype': line_type, 'true_color': true_color}
+        color = self.__COLOR__[stroke_color.name]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
         return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
@@ -124,7 +128,7 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        self._model_space.add_text(item.text).set_placement(list(position), align=ezdxf.enums.TextEntityAlignment.CENTER)
 
     ##############################################
 
-- 
2.43.0


From 8175f0459f6b1e1713dcdb72068f6a78f4d47a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:28 +0000
Subject: [PATCH 070/101] fix: quadratic splines added to a scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index e005a0c..8649608 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -373,8 +373,9 @@ class GraphicSceneScope:
     ##############################################
 
     def add_spline(self, spline, path_style: GraphicPathStyle) -> list:
+        method = self.quadratic_bezier if spline.degree == 2 else self.cubic_bezier
         return [
-            self.cubic_bezier(*bezier.points, path_style, user_data=spline)
+            method(*bezier.points, path_style, user_data=spline)
             for bezier in spline.to_bezier()
         ]
 
-- 
2.43.0


From 96d8f7cf0a7249bc1cd111bbb6dd559659b3d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 071/101] fix: distance to a path of a scene

---
 Patro/GeometryEngine/Path.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 5d29cc2..e6b0750 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1060,6 +1060,13 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance of the point to the nearest part, None if no part has a closest point."""
+        distances = [part.geometry.distance_to_point(point) for part in self]
+        return min((distance for distance in distances if distance is not None), default=None)
+
+    ##############################################
+
     def move_to(self, point):
         self.p0 = point
 
-- 
2.43.0


From ce4230af74b0d38cfc42da51003929d90b4df86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 072/101] fix: DXF polylines with a negative bulge

---
 Patro/FileFormat/Dxf/Polyline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..e2aa353 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -189,7 +188,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
@@ -212,8 +211,9 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
-                arc = Circle2D(center, vertex1.bulge_radius)
+                # offset is negative for a bulge on the left and less than a semicircle
+                center = segment_center + normal * offset
+                arc = Circle2D(center, abs(vertex1.bulge_radius))
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
                     start_angle += 360
-- 
2.43.0


From f44e2f85eba5063d82e6ab3a2cae9038063e198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 073/101] fix: start and stop of the vertical DXF ellipse arcs

---
 Patro/FileFormat/Dxf/Importer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..f0215cb 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -130,10 +130,6 @@ class DxfImporter:
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
-        if angle == 90:
-            radius_x, radius_y = radius_y, radius_x
-            angle = 0
-        # Fixme: ...
         ellipse = Ellipse2D(
             center,
             radius_x, radius_y,
-- 
2.43.0


From f60208a541cd3096921a53d02255b00a7d4998c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 074/101] fix: conversions of the yarn counts and optional
 twist

---
 Patro/TextileTechnology/Yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From a2faf7d7b88d7f13e094422a8dc6e195f961460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 075/101] fix: shrinkage and friction of a fabric

---
 Patro/TextileTechnology/Fabric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..fe81ceb 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -48,7 +48,7 @@ class FabricType(Enum):
 
 ####################################################################################################
 
-class WeaveType:
+class WeaveType(Enum):
 
     # In plain weave cloth, the warp and weft threads cross at right angles, aligned so they form a
     # simple criss-cross pattern. Each weft thread crosses the warp threads by going over one, then
@@ -98,9 +98,9 @@ class Fabric:
         self._bending = FloatPair(*kwargs['bending'])
         self._stretch = FloatPair(*kwargs['stretch'])
         self._shear = float(kwargs['shear'])
-        self._fiction = float(kwargs['friction'])
+        self._friction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
-- 
2.43.0


From 3f80b84e4b42870aaea2cc2cdfe03e46696c502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 076/101] fix: name of an ASTM seam

---
 Patro/TextileTechnology/Seam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..dbcdb62 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{0._class}{0._type}-{0._number_of_rows}'.format(self)
-- 
2.43.0


From fb3ff4f6c5abf94a42bfebeb790a617307a63d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 077/101] fix: size of a needle

---
 Patro/TextileTechnology/SewingMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index 0f1ff8d..ea4d51b 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -138,7 +138,7 @@ class Needle:
 
     @property
     def size(self):
-        return self._size
+        return self._nm_size
 
     @property
     def multiplicity(self):
-- 
2.43.0


From 39e9641f23dbb414ef75452613eee7a6b35d4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 078/101] fix: sections of the fibre and stitch databases

---
 Patro/TextileTechnology/Fiber.py      | 8 ++++----
 Patro/TextileTechnology/StitchType.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..c7231d2 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
             self.add(Fiber(name, FiberType.Synthetic, None, None))
diff --git a/Patro/TextileTechnology/StitchType.py b/Patro/TextileTechnology/StitchType.py
index 3a961cd..a489cb9 100644
--- a/Patro/TextileTechnology/StitchType.py
+++ b/Patro/TextileTechnology/StitchType.py
@@ -86,8 +86,8 @@ class StitchDatabase(Database):
 
         data = super().load(yaml_path)
 
-        self._introduction = data['introduction']
-        classes =  data['classes']
+        self._introduction = data['Introduction']
+        classes =  data['Classes']
 
         for classe_name, stitch_classe in classes.items():
             name = stitch_classe['name']
-- 
2.43.0


From 531fa30de9f144c010ba79a314edfbea6e2c0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 079/101] fix: missing personal data are empty

---
 Patro/Measurement/PersonalData.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/Measurement/PersonalData.py b/Patro/Measurement/PersonalData.py
index d0bf81c..a27f77c 100644
--- a/Patro/Measurement/PersonalData.py
+++ b/Patro/Measurement/PersonalData.py
@@ -71,7 +71,7 @@ class PersonalData:
 
     @first_name.setter
     def first_name(self, value: str) -> None:
-        self._first_name = str(value)
+        self._first_name = str(value) if value is not None else ''
 
     ##############################################
 
@@ -81,7 +81,7 @@ class PersonalData:
 
     @last_name.setter
     def last_name(self, value: str) -> None:
-        self._last_name = str(value)
+        self._last_name = str(value) if value is not None else ''
 
     ##############################################
 
@@ -131,7 +131,7 @@ class PersonalData:
 
     @email.setter
     def email(self, value: str) -> None:
-        self._email = str(value)
+        self._email = str(value) if value is not None else ''
 
     ##############################################
 
@@ -141,4 +141,4 @@ class PersonalData:
 
     @comment.setter
     def comment(self, value: str) -> None:
-        self._comment = str(value)
+        self._comment = str(value) if value is not None else ''
-- 
2.43.0


From 501d0205d8823c2f5a74dee3b173ab18144e2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 080/101] fix: identifier and transformation of the SVG
 ellipses

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 76c48f9..d458beb 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -746,7 +746,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
-- 
2.43.0


From 5c457d533de889be83195b08aae07a20f96a283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:08 +0000
Subject: [PATCH 081/101] fix: geometry cache of a path item when a segment is
 added

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index a72c565..f6e6f8a 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -452,6 +452,7 @@ class PathItem(PositionMixin, PathStyleItemMixin):
 
     def _add_segment(self, segment) -> None:
         self._segments.append(segment)
+        self.dirty = True
 
     ##############################################
 
@@ -472,6 +473,7 @@ class PathItem(PositionMixin, PathStyleItemMixin):
 
     def close(self) -> None:
         self._closed = True
+        self.dirty = True
 
 ####################################################################################################
 
-- 
2.43.0


From 8d11553bdee7a647ef20939a2b7196c8d7581817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 082/101] fix: XML object with an unset attribute given by
 keyword

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index d79f9fa..3d8a8f3 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -281,9 +281,10 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
         for attribute in self.__attributes__:
             py_attribute = attribute.py_attribute
             # Fixme: duplicated code
-            if py_attribute in kwargs:
+            value = kwargs.get(py_attribute, None)
+            if value is not None:
                 # Fixme: see VitFormat.py StrokeStyleAttribute !!!
-                value = attribute.from_xml(kwargs[py_attribute])
+                value = attribute.from_xml(value)
             else:
                 value = attribute.default
             attribute.set_attribute(self, value)
-- 
2.43.0


From 39345f0303405e5dc66c45a75b5e4a94f72956fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 083/101] fix: line style of a Valentina element written back
 as XML

---
 Patro/FileFormat/Valentina/VitFormat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 013e82e..732a333 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,21 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
+        if isinstance(value, StrokeStyle): # Python value
+            return value
         return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
-- 
2.43.0


From 9837bb66a053261a26c6f31b00a0d1a767f6ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 084/101] fix: XML boolean attribute given as a Python value

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 3d8a8f3..7eaf045 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
@@ -283,7 +285,6 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
             # Fixme: duplicated code
             value = kwargs.get(py_attribute, None)
             if value is not None:
-                # Fixme: see VitFormat.py StrokeStyleAttribute !!!
                 value = attribute.from_xml(value)
             else:
                 value = attribute.default
-- 
2.43.0


From 677189945f456a208d3a65ba9cff232728245315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:46 +0000
Subject: [PATCH 085/101] fix: file name of a TeX document with a three letter
 name

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index c89a4ed..3568fbc 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -42,7 +42,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
-- 
2.43.0


From 47eb4d1a6bf720bb55bf7935f778e59720676cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:27 +0000
Subject: [PATCH 086/101] fix: origin of the PDF drawings

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 12ebc0e..bbaa145 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -100,7 +100,9 @@ class ReportlabPainter(PdfPainterBase):
 
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        # positions are scaled by cast_position
+        origin = self.cast_position(Vector2D(bounding_box.x.inf, bounding_box.y.inf))
+        self._canvas.translate(-origin.x, -origin.y)
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
-- 
2.43.0


From 7549f31fc863b01738427e700a5d425dd1dcecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 087/101] fix: points of the DXF files read by ezdxf

---
 Patro/FileFormat/Dxf/Importer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index f0215cb..98f8bb8 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -69,7 +69,7 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        return Vector2D(point[0], point[1])
 
     @classmethod
     def _to_vectors(cls, points):
@@ -152,8 +152,7 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
+        points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
         spline = BSpline2D(points, item_dxf.degree, item.closed)
         self._add(spline)
-- 
2.43.0


From ec8daaeb01a811466857de78620b5cd8918ce189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:27 +0000
Subject: [PATCH 088/101] fix: cubic points of a quadratic item that changed

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index f6e6f8a..1dac1c2 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -392,10 +392,7 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        return list(self.geometry.to_cubic().points)
 
 ####################################################################################################
 
-- 
2.43.0


From 282e2498cf40602b5aa26aea4493ea22970e7801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:27 +0000
Subject: [PATCH 089/101] fix: a clone of a Line2D has its own point and vector

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 0891613..3058c8c 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
-- 
2.43.0


From 231262d59035cd5f03292430505ffb3048be457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:32 +0000
Subject: [PATCH 090/101] fix: colours from incomplete or malformed components
 are errors

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 36947a9..2359db2 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -69,7 +69,7 @@ class Color:
                 self._blue = color.blue_float
             else:
                 rgb = str(color)
-                if not rgb.startswith('#'):
+                if not rgb.startswith('#') or len(rgb) != 7:
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
@@ -77,11 +77,15 @@ class Color:
                                                       for x in (red, green, blue)]
         elif number_of_args == 3:
             self._red, self._green, self._blue = [self._check_value(arg) for arg in args]
-        else:
+        elif number_of_args == 0:
             self._red = self._green = self._blue = 0
+        else:
+            raise ValueError(f'Invalid color {args}')
 
         if 'hue' in kwargs:
-            if 'light' in kwargs:
+            if 'saturation' not in kwargs:
+                raise ValueError('Missing color parameter')
+            elif 'light' in kwargs:
                 hue, light, saturation = [kwargs[x] for x in ('hue', 'light', 'saturation')]
                 red, green, blue = colorsys.hls_to_rgb(hue, light, saturation)
             elif 'value' in kwargs:
@@ -89,7 +93,7 @@ class Color:
                 red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)
             else:
                 raise ValueError('Missing color parameter')
-            self._red, self._green, self._blue = [self._check_value(x) for x in (red, green, blue)]
+            self._red, self._green, self._blue = [self._check_value(float(x)) for x in (red, green, blue)]
 
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
-- 
2.43.0


From b8e16404317caf665ae87f3009c43eb0398b66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:32 +0000
Subject: [PATCH 091/101] fix: an empty paper name is a ValueError

---
 Patro/GraphicEngine/Painter/Paper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Paper.py b/Patro/GraphicEngine/Painter/Paper.py
index 771932b..14c4bab 100644
--- a/Patro/GraphicEngine/Painter/Paper.py
+++ b/Patro/GraphicEngine/Painter/Paper.py
@@ -42,7 +42,7 @@ class PaperSize:
     def __init__(self, name, orientation, margin):
 
         name = name.upper()
-        letter = name[0]
+        letter = name[:1]
         level = int(name[1:])
         if letter not in ('A', 'B', 'C'):
             raise ValueError
-- 
2.43.0


From 24d769fddced6419ee98d8524ebab0fc9a1481ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 092/101] fix: SVG arcs whose radii are scaled raised a math
 domain error

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index a20a4fd..3ac1ff3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -408,7 +408,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # step 2
 
         den = radius_x2 * point1_prime.y**2 + radius_y2 * point1_prime.x**2
-        num = radius_x2*radius_y2 - den
+        num = max(radius_x2*radius_y2 - den, 0)   # null when the radii are scaled, up to rounding
 
         ratio = radius_x/radius_y
 
-- 
2.43.0


From e9b47cd35d1e4e8eaf9b750dd8daa2cff2bc85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 093/101] fix: eccentricity of a circle and of an ellipse
 taller than wide

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 3ac1ff3..f0270ae 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -171,7 +171,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
@@ -520,7 +520,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        minor, major = sorted((self._radius_x, self._radius_y))
+        return sqrt(1 - (minor/major)**2)
 
     ##############################################
 
-- 
2.43.0


From 7d8818219b88be7cfb8789091b3e9fd5835f3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 094/101] fix: barycenter and axes of a polygon which is not
 simple

---
 Patro/GeometryEngine/Polygon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index aab7dfa..a0b714c 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -104,12 +104,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._area = None
         self._is_clockwise = is_clockwise
         # self._cross = None
-        # self._barycenter = None
+        self._barycenter = None
 
-        # self._major_axis_angle = None
+        self._major_axis_angle = None
         self._major_axis = None
-        # self._minor_axis = None
-        # self._axis_ratio = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
@@ -121,7 +121,11 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._is_convex = None
         self._area = None
         self._is_clockwise = None
+        self._barycenter = None
+        self._major_axis_angle = None
         self._major_axis = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
@@ -426,6 +430,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         # if self._centred:
         #     return
         barycenter = self.barycenter
+        if barycenter is None:
+            raise ValueError('Polygon is not simple')
         self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
-- 
2.43.0


From 83692ac28db3aebe4175341fc75e92225f6c9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 095/101] fix: length of a quadratic curve with collinear
 control points

---
 Patro/GeometryEngine/Bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index fd3ec7e..3058b9a 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -255,8 +255,12 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             sum_cba = c + b + a
             m0 = 0.25 / c
             m1 = q / (8 * c**1.5)
-            return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
-                    m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
+            length = m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a))
+            log_stop = 2 * sqrt(c * sum_cba) + two_cb
+            log_start = 2 * sqrt(c * a) + b
+            if log_stop > 0 and log_start > 0: # else the control points are collinear, m1 is null
+                length += m1 * (log(log_stop) - log(log_start))
+            return length
         else:
             return 2 * A0.magnitude
 
-- 
2.43.0


From 9686382a82836f3d8a733a46980731e3311a2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 096/101] fix: interpolated length of a closed curve and length
 at the start of a cubic curve

---
 Patro/GeometryEngine/Bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 3058b9a..d9be2d9 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -85,7 +85,11 @@ class BezierMixin2D(Primitive2DMixin):
         """Length of the curve obtained via line interpolation"""
 
         if dt is None:
-            dt = self.LineInterpolationPrecision / (self.end_point - self.start_point).magnitude
+            length = (self.end_point - self.start_point).magnitude
+            if length == 0: # closed curve
+                points = list(self.points)
+                length = sum([(p1 - p0).magnitude for p0, p1 in zip(points, points[1:])])
+            dt = self.LineInterpolationPrecision / length if length else 1
 
         length = 0
         t = 0
-- 
2.43.0


From 7b7b5e94f87ef5a8ebdc0e60815085d0e0c5f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:40 +0000
Subject: [PATCH 097/101] fix: length of a quadratic curve whose handle is on
 its end point

---
 Patro/GeometryEngine/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index d9be2d9..37da242 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -256,7 +256,8 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             a = 4 * A0.dot(A0)
             q = 4 * a * c - b * b
             two_cb = 2 * c + b
-            sum_cba = c + b + a
+            A2 = A0 + A1
+            sum_cba = 4 * A2.dot(A2) # = c + b + a, never negative
             m0 = 0.25 / c
             m1 = q / (8 * c**1.5)
             length = m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a))
-- 
2.43.0


From d52620eb7dc5fed76a132025033d7ae0c45c4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 098/101] fix: angular domain inclusion up to a turn

---
 Patro/GeometryEngine/Mixin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index 3183fab..fa41535 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -149,11 +149,11 @@ class AngularDomain:
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
-        else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+        """Test if *angle* is in the domain, up to a turn"""
+        if self.is_closed:
+            return True
+        # a domain goes counterclockwise from start to stop
+        return (angle - self._start) % 360 <= (self._stop - self._start) % 360
 
 ####################################################################################################
 
-- 
2.43.0


From 2c6898ee7d3bc41b876392c8f03af5be067ab3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 099/101] fix: length of a cubic curve which is a quadratic

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 37da242..f2358b7 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -516,7 +516,10 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0: # the curve is a quadratic curve
+            return 1
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From f4f538976ed4995c41ad2681b27047d155345e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 100/101] fix: point at the end of a spline having a non
 uniform knot vector

---
 Patro/GeometryEngine/Spline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 6d2c762..3117d18 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -281,6 +281,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
                     return i-1
+            # the last span is closed
+            return self._knots.index(t) -1
 
     ##############################################
 
@@ -300,7 +302,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         """De Boor-Cox recursion formula"""
 
         if k == 0:
-            return 1 if self._knots[i] <= t < self._knots[i+1] else 0
+            inf, sup = self._knots[i], self._knots[i+1]
+            # the last span is closed
+            return 1 if inf <= t < sup or inf < t == sup == self._knots[-1] else 0
 
         ki = self._knots[i]
         kik = self._knots[i+k]
-- 
2.43.0


From 9c8e080d8cd138e0fb0cabe2f71d7814e0e9dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 101/101] =?UTF-8?q?fix:=20refuse=20to=20convert=20a=20spli?=
 =?UTF-8?q?ne=20of=20degree=20higher=20than=203=20to=20B=C3=A9zier=20curve?=
 =?UTF-8?q?s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 3117d18..b1c3b68 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -451,7 +451,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
             raise NotImplementedError
-- 
2.43.0


From 35521b351f6ba5bdb2560c37af2c14eda2d63f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 01/85] fix: convert the units of single-element primitive
 lists

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..6b850e1 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From 715b83cb50d8729f7d8df8908b0199b765758916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 02/85] fix: give the edges of macro outlines the units of
 their group

---
 gerber/am_statements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..2fa50ca 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -320,14 +320,14 @@ class AMVectorLinePrimitive(AMPrimitive):
         line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
         vertices = line.vertices
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(vertices[-1], self.rotation, (0, 0))
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
@@ -443,7 +443,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0, units=units), units=units))
 
             prev_point = cur_point
 
@@ -806,7 +806,7 @@ class AMThermalPrimitive(AMPrimitive):
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
         outlines = []
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
@@ -821,7 +821,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, self.position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
 
             prev_point = cur_point
 
@@ -933,14 +933,14 @@ class AMCenterLinePrimitive(AMPrimitive):
         points.append((x + half_width, y - half_height))
         points.append((x + half_width, y + half_height))
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(points[3], self.rotation, self.center)
         for point in points:
             cur_point = rotate_point(point, self.rotation, self.center)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From a6090f4752f419cc387f2d97b506dae48b20c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 03/85] fix: chain the edges of macro line and thermal outlines
 into a contour

---
 gerber/am_statements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 2fa50ca..1c2a500 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -329,6 +329,8 @@ class AMVectorLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
@@ -823,7 +825,7 @@ class AMThermalPrimitive(AMPrimitive):
 
                 lines.append(Line(prev_point, cur_point, aperture, units=units))
 
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -942,6 +944,8 @@ class AMCenterLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
-- 
2.43.0


From fd06c2f88f53f3f2c0022a6c7c1743d71690f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 04/85] fix: recompute the bounding box of a slot after it
 changes

---
 gerber/primitives.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6b850e1..f4ce6e5 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1658,9 +1658,9 @@ class Slot(Primitive):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
+        self._start = start
+        self._end = end
+        self._diameter = diameter
         self._to_convert = ['start', 'end', 'diameter']
 
 
@@ -1668,6 +1668,33 @@ class Slot(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From 003cee0892cae966587bf947bfeab822625eec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 05/85] fix: recompute the bounding box of butterflies and
 square-round donuts after they change

---
 gerber/primitives.py | 81 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 11 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index f4ce6e5..88a3b2d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1460,16 +1460,32 @@ class RoundButterfly(Primitive):
     def __init__(self, position, diameter, **kwargs):
         super(RoundButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.diameter = diameter
+        self._position = position
+        self._diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def radius(self):
         return self.diameter / 2.
@@ -1492,16 +1508,32 @@ class SquareButterfly(Primitive):
     def __init__(self, position, side, **kwargs):
         super(SquareButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.side = side
+        self._position = position
+        self._side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def side(self):
+        return self._side
+
+    @side.setter
+    def side(self, value):
+        self._changed()
+        self._side = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1576,18 +1608,45 @@ class SquareRoundDonut(Primitive):
     def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
         super(SquareRoundDonut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
         self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From e4d829979c69ce7bc09ff7f56c2e0c5317d0b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 06/85] fix: recompute the bounding box of a donut after it
 changes

---
 gerber/primitives.py | 61 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 88a3b2d..daeda19 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1553,7 +1553,7 @@ class Donut(Primitive):
                  outer_diameter, **kwargs):
         super(Donut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if shape not in ('round', 'square', 'hexagon', 'octagon'):
             raise ValueError(
                 'Valid shapes are round, square, hexagon or octagon')
@@ -1561,25 +1561,68 @@ class Donut(Primitive):
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
         if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
+            self._width = outer_diameter
+            self._height = outer_diameter
         else:
             # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
+            self._width = 0.5 * math.sqrt(3.) * outer_diameter
+            self._height = outer_diameter
 
         self._to_convert = ['position', 'width',
                             'height', 'inner_diameter', 'outer_diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
-- 
2.43.0


From 731228b2ddb0a84d236ce0a3599f4f32765a51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 07/85] fix: recompute derived geometry after an aperture,
 direction or side count changes

---
 gerber/primitives.py | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index daeda19..b972039 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -211,13 +211,22 @@ class Line(Primitive):
         self.level_polarity = level_polarity
         self._start = start
         self._end = end
-        self.aperture = aperture
+        self._aperture = aperture
         self._to_convert = ['start', 'end', 'aperture']
 
     @property
     def flashed(self):
         return False
 
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def start(self):
         return self._start
@@ -331,8 +340,8 @@ class Arc(Primitive):
         self._start = start
         self._end = end
         self._center = center
-        self.direction = direction
-        self.aperture = aperture
+        self._direction = direction
+        self._aperture = aperture
         self._quadrant_mode = quadrant_mode
         self._to_convert = ['start', 'end', 'center', 'aperture']
 
@@ -340,6 +349,15 @@ class Arc(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def start(self):
         return self._start
@@ -367,6 +385,15 @@ class Arc(Primitive):
         self._changed()
         self._center = value
 
+    @property
+    def direction(self):
+        return self._direction
+
+    @direction.setter
+    def direction(self, value):
+        self._changed()
+        self._direction = value
+
     @property
     def quadrant_mode(self):
         return self._quadrant_mode
@@ -1173,7 +1200,7 @@ class Polygon(Primitive):
         super(Polygon, self).__init__(**kwargs)
         validate_coordinates(position)
         self._position = position
-        self.sides = sides
+        self._sides = sides
         self._radius = radius
         self.hole_diameter = hole_diameter
         self.hole_width = hole_width
@@ -1204,6 +1231,15 @@ class Polygon(Primitive):
         self._changed()
         self._position = value
 
+    @property
+    def sides(self):
+        return self._sides
+
+    @sides.setter
+    def sides(self, value):
+        self._changed()
+        self._sides = value
+
     @property
     def radius(self):
         return self._radius
-- 
2.43.0


From b0a6e98b33723e57cafff39f94d03f7953c62527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 08/85] fix: keep the bounding box of rotated shapes the right
 way round

---
 gerber/primitives.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index b972039..e4e3759 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -785,11 +785,13 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -880,11 +882,13 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -997,13 +1001,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1081,13 +1085,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1182,13 +1186,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 3d66b83fa98ba9dcbcd59594a71a888c343174ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 09/85] fix: rotate the vertices of a shape about its center,
 as its bounding box is

---
 gerber/primitives.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e4e3759..b7c354d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -188,6 +188,14 @@ class Primitive(object):
     def to_statement(self):
         pass
 
+    def _rotate_points(self, points):
+        """ Rotate points about the primitive's center by its rotation.
+        """
+        cx, cy = self.position
+        return [(cx + ((x - cx) * self._cos_theta - (y - cy) * self._sin_theta),
+                 cy + ((x - cx) * self._sin_theta + (y - cy) * self._cos_theta))
+                for x, y in points]
+
     def _changed(self):
         """ Clear memoized properties.
 
@@ -778,9 +786,7 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = self._rotate_points([ll, ul, ur, lr])
         return self._vertices
 
     @property
@@ -875,9 +881,7 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = self._rotate_points([top, right, bottom, left])
         return self._vertices
 
     @property
@@ -994,9 +998,7 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = self._rotate_points(vertices)
         return self._vertices
 
     @property
-- 
2.43.0


From 764b6c07736c124ebaa3c0906f0e6a4e30f9061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 10/85] fix: sweep of a counterclockwise arc that passes
 through 0 degrees

---
 gerber/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index b7c354d..5cec3ec 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -435,7 +435,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 9fd7fb530f07b84687206bfdd5f8a8ce939bf55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 11/85] fix: vertices and width of an outline

---
 gerber/primitives.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 5cec3ec..602411d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1434,18 +1434,12 @@ class Outline(Primitive):
     @property
     def vertices(self):
         if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
+            self._vertices = [p.start for p in self.primitives]
         return self._vertices
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From 0f79202713fbbf45e5bb40b57b1425dab6c37609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 12/85] fix: bounding box of an arc drawn with a rectangular
 aperture

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 602411d..fdf3f3d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -487,10 +487,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.
+                max_x = max(x) + self.aperture.width / 2.
+                min_y = min(y) - self.aperture.height / 2.
+                max_y = max(y) + self.aperture.height / 2.
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From fdf543dd945a63921d60894f14622bc981b62bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 13/85] fix: leave vertex count and rotation of polygon
 apertures out of unit conversion

---
 gerber/gerber_statements.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..77e21a7 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -355,16 +355,21 @@ class ADParamStmt(ParamStmt):
         else:
             self.modifiers = [tuple()]
 
+    def _convert(self, convert, modifier):
+        # The vertex count and the rotation of a polygon are not lengths
+        return tuple([x if self.shape == 'P' and i in (1, 2) else convert(x)
+                      for i, x in enumerate(modifier)])
+
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
+            self.modifiers = [self._convert(inch, modifier)
                               for modifier in self.modifiers]
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self.modifiers = [self._convert(metric, modifier)
                               for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
-- 
2.43.0


From 46be3bae36bed09b547a4d8b1b959355151c4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 14/85] fix: subtraction in aperture macro expressions

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From 3f7361a0855d714273542ce4727cff17bc149365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 15/85] fix: keep variables set by a macro out of the caller's
 parameters and of later evaluations

---
 gerber/am_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index e517ecd..314b433 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -59,6 +59,9 @@ def eval_macro(instructions, parameters={}):
             p[i + 1] = val
 
         parameters = p
+    else:
+        # variables set by the macro are local to this evaluation
+        parameters = dict(parameters)
 
     stack = []
 
-- 
2.43.0


From d9c245884611432d14f03c8fcafa706b9e436bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 16/85] fix: minus signs in aperture macro expressions

---
 gerber/am_read.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..ebb6c76 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -171,9 +171,12 @@ def read_macro(macro):
 
             elif c in Token.OPERATORS:
                 if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
                     unary_minus_allowed = False
-                    continue
+                    if scanner.peek() in "0123456789.":
+                        unary_minus = True
+                        continue
+                    # minus sign of a variable or a parenthesis: 0 - operand
+                    instructions.append((OpCode.PUSH, 0))
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
                     instructions.append((token_to_opcode(pop()), None))
@@ -182,6 +185,7 @@ def read_macro(macro):
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -192,9 +196,11 @@ def read_macro(macro):
 
                 # discard "("
                 pop()
+                unary_minus_allowed = False
 
             elif c.startswith("$"):
                 n = scanner.readint()
+                unary_minus_allowed = False
 
                 if is_equation and not found_equation_left_side:
                     equation_left_side = n
@@ -203,18 +209,22 @@ def read_macro(macro):
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
             elif c == "0":
+                unary_minus_allowed = False
                 if is_primitive and not found_primitive_code:
                     instructions.append((OpCode.PUSH, scanner.readstr("*")))
                     found_primitive_code = True
                 else:
                     # decimal or integer disambiguation
                     if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
+                        unary_minus = False
                         instructions.append((OpCode.PUSH, 0))
 
             elif c in "123456789.":
                 scanner.ungetc()
+                unary_minus_allowed = False
 
                 if is_primitive and not found_primitive_code:
                     primitive_code = scanner.readint()
-- 
2.43.0


From 15535bedc590a7982b45437274225d4bf4cf2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 17/85] fix: aperture macro comments that contain an equals
 sign

---
 gerber/am_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index ebb6c76..a21f1de 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -134,7 +134,8 @@ def read_macro(macro):
         unary_minus_allowed = False
         unary_minus = False
 
-        if Token.EQUALS in block:
+        # a comment may contain an equals sign, too
+        if Token.EQUALS in block and not block.strip().startswith("0"):
             is_equation = True
         else:
             is_primitive = True
-- 
2.43.0


From d4ffae357b87ccdf857a59e9e166a04548dea79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 18/85] fix: rotation of a rectangle turned into a macro center
 line is already in degrees

---
 gerber/am_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 1c2a500..fc45a08 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -876,7 +876,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         width = primitive.width
         height = primitive.height
         center = primitive.position
-        rotation = math.degrees(primitive.rotation)
+        rotation = primitive.rotation
         return cls(21, 'on', width, height, center, rotation)
 
     @classmethod
-- 
2.43.0


From a4fd95c996d77d4d566b5a6eefdbde2f18167fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 19/85] fix: write macro primitive coordinates with six digits,
 as outlines are

---
 gerber/am_statements.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index fc45a08..e579baa 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -541,8 +541,8 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
+            position="%.6g,%.6g" % self.position,
+            diameter='%.6g' % self.diameter,
             rotation=str(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
@@ -650,7 +650,7 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.6g,%.6g" % self.position,
             diameter=self.diameter,
             ring_thickness=self.ring_thickness,
             gap=self.gap,
@@ -743,7 +743,7 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.6g,%.6g" % self.position,
             outer_diameter=self.outer_diameter,
             inner_diameter=self.inner_diameter,
             gap=self.gap,
@@ -916,7 +916,7 @@ class AMCenterLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            center="%.4g,%.4g" % self.center,
+            center="%.6g,%.6g" % self.center,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
@@ -1024,7 +1024,7 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
+            lower_left="%.6g,%.6g" % self.lower_left,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
-- 
2.43.0


From 33f617b4c71caf5e15a6b2361401f310c0a78b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 20/85] fix: write aperture dimensions with six digits instead
 of four

---
 gerber/gerber_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 77e21a7..88cbcb3 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -374,7 +374,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.6g" % x for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
-- 
2.43.0


From 837edcc486fc10ff2ad2c693afe81f5796ea52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 21/85] fix: keep the apertures of a Gerber file in a list,
 which can be copied

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..068b43e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -274,7 +274,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 1f04341cf7b736be0b053e993080a44f590abca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 22/85] fix: convert the aperture table of a Gerber file along
 with its primitives

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 068b43e..ceb357f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -161,6 +161,8 @@ class GerberFile(CamFile):
                 statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
+            for aperture in self.apertures:
+                aperture.to_inch()
 
     def to_metric(self):
         if self.units != 'metric':
@@ -169,6 +171,8 @@ class GerberFile(CamFile):
                 statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
+            for aperture in self.apertures:
+                aperture.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-- 
2.43.0


From eb3c6f9feaa394733a93f32607e2540b46020b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 23/85] fix: count every routed slot as a hit of its tool

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..7832222 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -733,6 +733,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From 36a0e49a1203395385435cc910ccfc7984204299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 24/85] fix: read tool sizes given in comments on Python 3

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7832222..02c80f5 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From 0f9fbd06f778ca967e2189ce9e77eb78e6b86c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 25/85] fix: path length of a drill file that has slots

---
 gerber/excellon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 02c80f5..57e2672 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -329,9 +329,14 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            if isinstance(hit, DrillSlot):
+                points = (hit.start, hit.end)
+            else:
+                points = (hit.position,)
+            for point in points:
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], point)))
+                positions[num] = point
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 9652541bab41d002bac5d9fcbadf843696498c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 26/85] fix: write a drill file that has slots

---
 gerber/excellon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 57e2672..13b5624 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -275,8 +275,11 @@ class ExcellonFile(CamFile):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        if isinstance(hit, DrillSlot):
+                            stmt = SlotStmt.from_points(hit.start, hit.end)
+                        else:
+                            stmt = CoordinateStmt(*hit.position)
+                        f.write(stmt.to_excellon(self.settings) + '\n')
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
     def to_inch(self):
-- 
2.43.0


From 633d2c09d0924c11a2214282f46eb58b79a7a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 27/85] fix: drill report of a file with a tool that is never
 used

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 13b5624..fa54bde 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -253,7 +253,7 @@ class ExcellonFile(CamFile):
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count, self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
-- 
2.43.0


From 55d373bfe34da624a15356cce1f535be2f5dd6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 28/85] fix: slots that leave out a coordinate

---
 gerber/excellon.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index fa54bde..cb60ff2 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -694,6 +694,7 @@ class ExcellonParser(object):
 
                 # I don't know if this is actually correct, but it makes sense
                 # that this is where the tool would end
+                last = tuple(self.pos)
                 x = stmt.x_end
                 y = stmt.y_end
 
@@ -714,7 +715,14 @@ class ExcellonParser(object):
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    start = (stmt.x_start, stmt.y_start)
+                    end = (stmt.x_end, stmt.y_end)
+                    if self.notation == 'absolute':
+                        # Coordinates that are left out keep their last value
+                        start = tuple(s if s is not None else p for s, p in zip(start, last))
+                        end = tuple(self.pos)
+
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
-- 
2.43.0


From 7fe1ff85bf7fb221a2183aea17972d61196980eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 29/85] fix: write numbers in formats without integer or
 decimal digits

---
 gerber/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..69666b4 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -148,6 +148,10 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
 
+    # The format always prints an integer digit and allows for a decimal point
+    if len(digits) > MAX_DIGITS and digits[0] == '0':
+        digits.pop(0)
+
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
     if digit_sum == 0:
-- 
2.43.0


From fd6fb6ce76f683eccd56473d806a81285d6c0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 30/85] fix: center of counterclockwise single quadrant arcs
 that reach the x axis

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index ceb357f..59e5a95 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -761,7 +761,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 626be355e17c43f94c78e2d1a6be5f18fe2817fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 31/85] fix: region contour of a single full circle followed by
 a move

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 59e5a95..3ea127a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -702,7 +702,7 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 40388c0aa8e42c1400574b1d1013c6709c3dae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 32/85] fix: apertures of macros whose name starts with C

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3ea127a..139778e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -192,7 +192,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>(?![a-zA-Z_$])[^,%]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From bde3a97ee67631c70d5484c728054a1dde9715b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 33/85] fix: include file in a program without a file name

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 139778e..7750b56 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -390,7 +390,7 @@ class GerberParser(object):
                         # Don't crash on include loop
                         if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:
                             self._recursion_depth += 1
-                            with open(os.path.join(os.path.dirname(self.filename), param["filename"]), 'r') as f:
+                            with open(os.path.join(os.path.dirname(self.filename or ''), param["filename"]), 'r') as f:
                                 inc_data = f.read()
                             for stmt in self._parse(self._split_commands(inc_data)):
                                 yield stmt
-- 
2.43.0


From 82f78ab00814acd459619020c009118713e88b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 34/85] fix: last command of a program that has no parameters
 and no final line end

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 7750b56..a3ab60c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -311,6 +311,10 @@ class GerberParser(object):
                 start = cur + 1
                 in_header = False
 
+        # The last command may lack a line end
+        if start < length:
+            yield data[start:]
+
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
         return json.dumps(stmts)
-- 
2.43.0


From 3695a2196f7a703868f0ab275f55fb102ded99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 35/85] fix: deprecated code followed by other commands on its
 line

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a3ab60c..4784a7e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -466,7 +466,7 @@ class GerberParser(object):
 
                 (deprecated_format, r) = _match_one(self.DEPRECATED_FORMAT, line)
                 if deprecated_format:
-                    yield DeprecatedStmt.from_gerber(line)
+                    yield DeprecatedStmt.from_gerber(line[:len(line) - len(r)])
                     line = r
                     did_something = True
                     continue
-- 
2.43.0


From 9f552f0608149aef708acaeab56cfd9567e24f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 36/85] fix: mirror and offset parameters that name one axis
 only

---
 gerber/gerber_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 88cbcb3..2945b1d 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -625,8 +625,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -673,8 +673,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
-- 
2.43.0


From ebd60bd2c0b525de71e20985571b54f542147feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 37/85] fix: format statement of coordinates that keep all
 zeros

---
 gerber/gerber_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 2945b1d..cb66fe5 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -155,11 +155,11 @@ class FSParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if settings:
-            zero_suppression = 'L' if settings.zero_suppression == 'leading' else 'T'
+            zero_suppression = {'leading': 'L', 'trailing': 'T'}.get(settings.zero_suppression, 'D')
             notation = 'A' if settings.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, settings.format))
         else:
-            zero_suppression = 'L' if self.zero_suppression == 'leading' else 'T'
+            zero_suppression = {'leading': 'L', 'trailing': 'T'}.get(self.zero_suppression, 'D')
             notation = 'A' if self.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, self.format))
 
-- 
2.43.0


From 8663ffc2f96637ed19d3832343c294b25600dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 38/85] fix: parameters that follow a name or an aperture in
 one parameter block

---
 gerber/rs274x.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 4784a7e..e265c85 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -192,25 +192,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>(?![a-zA-Z_$])[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>(?![a-zA-Z_$])[^,%*]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(?P<discarded>[^*]*)"
+    LN = r"(?P<param>LN)(?P<name>[^*]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From 0939535c0d974bf0178e4b2490a6ee7bbd084f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 39/85] fix: aperture macros with names of one letter

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index e265c85..95e2ddb 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -187,7 +187,7 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"(?:[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+|[ABD-NQS-Za-z_$\.])"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
-- 
2.43.0


From a05e51faf04377a846433a520fc1cb568682c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 40/85] fix: scale factors of SF parameters were dropped on
 reading

---
 gerber/gerber_statements.py | 4 ++--
 gerber/rs274x.py            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index cb66fe5..ca108bb 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -747,8 +747,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 95e2ddb..a95ade4 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -209,7 +209,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>[^*]*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>[^*]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 231d8d2470a0a3112b87827070b70287edce9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 41/85] fix: comments of aperture macros gained a leading comma

---
 gerber/am_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index e579baa..6811839 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -121,6 +121,9 @@ class AMCommentPrimitive(AMPrimitive):
         primitive = primitive.strip()
         code = int(primitive[0])
         comment = primitive[1:]
+        # an evaluated macro separates the code from the comment by a comma
+        if comment.startswith(','):
+            comment = comment[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
-- 
2.43.0


From b31d29881dbe353e8ed3545e84481e125dc47510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 42/85] fix: decimal string of very small and very large
 numbers

---
 gerber/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 69666b4..8a7826c 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -189,6 +189,9 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        # very small or very large, written without an exponent
+        floatstr = '%0.10f' % value
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From 74aba45ffa1ba9276b2c346632a57618d33d15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 43/85] fix: incremental drill files were written with absolute
 positions in incremental mode

---
 gerber/excellon.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index cb60ff2..505f848 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -264,12 +264,21 @@ class ExcellonFile(CamFile):
         with open(filename, 'w') as f:
 
             # Copy the header verbatim
+            notation = 'absolute'
             for statement in self.statements:
                 if not isinstance(statement, ToolSelectionStmt):
                     f.write(statement.to_excellon(self.settings) + '\n')
+                    if isinstance(statement, AbsoluteModeStmt):
+                        notation = 'absolute'
+                    elif isinstance(statement, IncrementalModeStmt):
+                        notation = 'incremental' if statement.mode == 'on' else 'absolute'
                 else:
                     break
 
+            # Positions of hits are always absolute
+            if notation != 'absolute':
+                f.write(AbsoluteModeStmt().to_excellon(self.settings) + '\n')
+
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
-- 
2.43.0


From fab3f0a01dcf9b4da57a17547b5a8554f7456b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 44/85] fix: number format of unit statements was dropped on
 writing

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..d4cd4a9 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -679,10 +679,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format in [(4, 2), (3, 3), (2, 4)]:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 97c2e2b816c65787a8ad0c5159eed76ffbea4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 45/85] fix: coordinates of the end of program statement were
 written in the default format

---
 gerber/excellon_statements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index d4cd4a9..0c86a05 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -622,9 +622,13 @@ class EndOfProgramStmt(ExcellonStatement):
     def to_excellon(self, settings=None):
         stmt = 'M30'
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % (write_gerber_value(self.x, settings.format,
+                                                settings.zero_suppression)
+                             if settings else write_gerber_value(self.x))
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % (write_gerber_value(self.y, settings.format,
+                                                settings.zero_suppression)
+                             if settings else write_gerber_value(self.y))
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From da124e59ad6886baf07bac922edee96e39c0869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 46/85] fix: tool speeds of 100000 rpm or more were written
 without decimal point

---
 gerber/excellon_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 0c86a05..6a17d0d 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -228,7 +228,7 @@ class ExcellonTool(ExcellonStatement):
             if self.rpm < 100000.:
                 stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
             else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+                stmt += 'S%s' % decimal_string(self.rpm / 1000.)
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-- 
2.43.0


From fc44c738346e90b702a39fcd9b7616881b5784be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 47/85] fix: holes before the first tool selection were written
 twice

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 505f848..b1c850e 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -266,6 +266,10 @@ class ExcellonFile(CamFile):
             # Copy the header verbatim
             notation = 'absolute'
             for statement in self.statements:
+                if isinstance(statement, (CoordinateStmt, SlotStmt, RepeatHoleStmt,
+                                          RouteModeStmt, NextToolSelectionStmt)):
+                    # These hits are written with those of their tool
+                    continue
                 if not isinstance(statement, ToolSelectionStmt):
                     f.write(statement.to_excellon(self.settings) + '\n')
                     if isinstance(statement, AbsoluteModeStmt):
-- 
2.43.0


From e745a68b2217b94c82fad24e3f766c0778c5cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 48/85] fix: definition of an undeclared tool was written after
 a header without tools

---
 gerber/excellon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b1c850e..b19ad81 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -413,6 +413,7 @@ class ExcellonParser(object):
         self.pos = [0., 0.]
         self.drill_down = False
         self._previous_line = ''
+        self._header_end = None
         # Default for plated is None, which means we don't know
         self.plated = ExcellonTool.PLATED_UNKNOWN
         if settings is not None:
@@ -506,6 +507,7 @@ class ExcellonParser(object):
             self.statements.append(RewindStopStmt())
             if self.state == 'HEADER':
                 self.state = 'DRILL'
+                self._header_end = self.statements[-1]
             elif self.state == 'INIT':
                 self.state = 'HEADER'
 
@@ -523,6 +525,7 @@ class ExcellonParser(object):
             self.statements.append(HeaderEndStmt())
             if self.state == 'HEADER':
                 self.state = 'DRILL'
+                self._header_end = self.statements[-1]
 
         elif line[:3] == 'M15':
             self.statements.append(ZAxisRoutPositionStmt())
@@ -686,7 +689,8 @@ class ExcellonParser(object):
                     # FIXME: need to add this tool definition inside header to
                     # make sure it is properly written
                     for i, s in enumerate(self.statements):
-                        if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
+                        if (isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool)
+                                or s is self._header_end):
                             self.statements.insert(i, tool)
                             break
 
-- 
2.43.0


From 0f37155da6a2daa4385c98a5aef4c55d67f909cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 49/85] fix: end of program was written before the holes of a
 file without tool selection

---
 gerber/excellon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b19ad81..0805119 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -267,8 +267,9 @@ class ExcellonFile(CamFile):
             notation = 'absolute'
             for statement in self.statements:
                 if isinstance(statement, (CoordinateStmt, SlotStmt, RepeatHoleStmt,
-                                          RouteModeStmt, NextToolSelectionStmt)):
-                    # These hits are written with those of their tool
+                                          RouteModeStmt, NextToolSelectionStmt,
+                                          EndOfProgramStmt)):
+                    # Hits and end of the program are written below
                     continue
                 if not isinstance(statement, ToolSelectionStmt):
                     f.write(statement.to_excellon(self.settings) + '\n')
-- 
2.43.0


From 592da184a2b00e816676a6b9271fb983b6bf6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 50/85] fix: negative coordinates of the end of program
 statement

---
 gerber/excellon_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 6a17d0d..8155a6b 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -601,8 +601,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+\-]?\d*\.?\d*)?Y?'
+                           r'(?P<y>[+\-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
-- 
2.43.0


From 6f20ea94214904a0929e04120efea83f71885f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 51/85] fix: holes of clear or inverted shapes were filled
 instead of left out

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..56a2dde 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -319,10 +319,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -358,19 +355,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -415,10 +406,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -457,10 +445,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -468,10 +453,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 3184fba9c969e68c10b81540a30e338912e79216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 52/85] fix: clip region cut off the upper edge of primitives

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 56a2dde..8eaa0ed 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -576,7 +576,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From 439b8ebda22478092eeae3826dfc3e519d573def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 53/85] fix: rotated rectangles were rendered without their
 rotation

---
 gerber/render/cairo_backend.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8eaa0ed..271af80 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -338,10 +338,6 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_rectangle(self, rectangle, color):
-        lower_left = self.scale_point(rectangle.lower_left)
-        width, height = tuple([abs(coord) for coord in
-                               self.scale_point((rectangle.width,
-                                                 rectangle.height))])
         self.ctx.set_operator(cairo.OPERATOR_OVER
                               if (not self.invert)
                                  and rectangle.level_polarity == 'dark'
@@ -349,7 +345,10 @@ class GerberCairoContext(GerberContext):
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                points = [self.scale_point(vertex) for vertex in rectangle.vertices]
+                mask.ctx.move_to(*points[-1])
+                for point in points:
+                    mask.ctx.line_to(*point)
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
-- 
2.43.0


From 28335be0adfc1f9e2b1471b14f1c7f3fa1a9a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 54/85] fix: clear primitives of inverted layers erased instead
 of restoring the layer

---
 gerber/render/cairo_backend.py | 49 +++++++++++-----------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 271af80..9d37644 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,17 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        """ Drawing operator: in an inverted layer, dark primitives clear the
+        image and clear primitives fill it.
+        """
+        dark = primitive.level_polarity == 'dark'
+        return cairo.OPERATOR_OVER if dark != bool(self.invert) else cairo.OPERATOR_CLEAR
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +246,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +275,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -301,10 +300,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -338,10 +334,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_rectangle(self, rectangle, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -374,10 +367,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -424,10 +414,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -480,9 +467,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -503,9 +488,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 726af010783f38d27109c22ef52fe6b344171972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 55/85] fix: full circles drawn clockwise were not rendered

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 9d37644..30251d8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -240,7 +240,7 @@ class GerberCairoContext(GerberContext):
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
             # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            angle2 += 0.000000001 if arc.direction == 'clockwise' else -0.000000001
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
-- 
2.43.0


From 0f630e28cdb5faa213bafa83cf13605706845f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 56/85] fix: regions bounded by a full circle were not rendered

---
 gerber/render/cairo_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 30251d8..1899e4c 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -289,6 +289,8 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if angle1 == angle2 and prim.quadrant_mode != 'single-quadrant':
+                            angle2 += 0.000000001 if prim.direction == 'clockwise' else -0.000000001
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From f19cd9cd5711f90032adb4785ad0dc7e1f04876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 57/85] fix: netlist test points were rendered away from their
 position

---
 gerber/render/cairo_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 1899e4c..9fd2d32 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -484,8 +484,7 @@ class GerberCairoContext(GerberContext):
             self.render(primitive)
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
-- 
2.43.0


From 7da43175397d2532143b8c2999b2a90af2fd7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 58/85] fix: polarity and erasing shapes of rendered aperture
 macros

---
 gerber/render/cairo_backend.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 9fd2d32..643b83b 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -480,8 +480,17 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
-        for primitive in amgroup.primitives:
-            self.render(primitive)
+        # Draw the macro on an image of its own: erasing shapes only erase what
+        # the macro has drawn, and the polarity is that of the whole macro
+        layer, invert = self.ctx, self.invert
+        with self._new_mask() as mask:
+            mask.ctx.translate(0, self.origin_in_pixels[1])
+            self.ctx, self.invert = mask.ctx, False
+            for primitive in amgroup.primitives:
+                self.render(primitive)
+            self.ctx, self.invert = layer, invert
+            self.ctx.set_operator(self._operator(amgroup))
+            self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_test_record(self, primitive, color):
         position = primitive.position
-- 
2.43.0


From b95cb311dcc50d5c5bcd564eb0c1bf1e29a63790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 59/85] fix: render_layers cropped layers to the bounds of the
 first one

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 643b83b..040fe26 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -127,7 +127,7 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
-                              verbose=verbose)
+                              verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
 
     def dump(self, filename=None, verbose=False):
-- 
2.43.0


From 474f24a861fef229eda3c5f48d6e6ffd215d8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 60/85] fix: themes run out of settings for internal layers

---
 gerber/render/theme.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..4029f32 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -16,6 +16,8 @@
 # limitations under the License.
 
 
+import itertools
+
 from .render import RenderSettings
 
 COLORS = {
@@ -74,7 +76,7 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
+        for setting in itertools.cycle(self._internal):
             yield setting
 
     def get(self, key, noneval=None):
-- 
2.43.0


From 5da99402a3c34c6a198b4be8801502d0af13dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 61/85] fix: bottom mask of the Blue theme is not mirrored

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 4029f32..bbe8539 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -97,7 +97,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From 78caefda3a283dc24c9e861d13685d818a744cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 62/85] fix: net names of test points were rendered away from
 their position

---
 gerber/render/cairo_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 040fe26..8eaf8ab 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -499,7 +499,8 @@ class GerberCairoContext(GerberContext):
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        x, y = self.scale_point([coord + 0.015 for coord in position])
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From 09a22dc596310cf1a7b884284a76e280dded0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 63/85] fix: top and bottom layers of boards without layers on
 that side

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..cc8d7ad 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -81,7 +81,7 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def bottom_layers(self):
@@ -89,7 +89,7 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 1c4bb50effbd96b7e91665d14f107e0aefd3df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 64/85] fix: order of internal layers in directories with
 digits in their name

---
 gerber/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..bf1e7cc 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -255,7 +255,7 @@ class InternalLayer(PCBLayer):
     def from_cam(cls, camfile):
         filename = camfile.filename
         try:
-            order = int(re.search(r'\d+', filename).group())
+            order = int(re.search(r'\d+', os.path.basename(filename)).group())
         except AttributeError:
             order = 0
         return cls(filename, camfile, order)
-- 
2.43.0


From 3327aa46eab6b21bdf63970c8da824884e63403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 65/85] fix: file left open after guessing its layer class by
 content

---
 gerber/layers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index bf1e7cc..feae059 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -150,13 +150,13 @@ def guess_layer_class(filename):
 
 def guess_layer_class_by_content(filename):
     try:
-        file = open(filename, 'r')
-        for line in file:
-            for hint in hints:
-                if len(hint.content) > 0:
-                    patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
-                    if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
-                        return hint.layer
+        with open(filename, 'r') as file:
+            for line in file:
+                for hint in hints:
+                    if len(hint.content) > 0:
+                        patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
+                        if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
+                            return hint.layer
     except:
         pass
 
-- 
2.43.0


From 684a30e28f2f5b23b8297a4bdbcdd42e7d62191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 66/85] fix: last digit of the last field of netlist test
 records was dropped

---
 gerber/ipc356.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..70f6e03 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,21 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
-        record['net_name'] = line[3:end].strip()
+        record['net_name'] = line[3:17].strip()
 
         if len(line) >= 27 and line[26] != '-':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +313,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,7 +355,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 79 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 74655ef16dad35c78e5f7da40d3e5861be808786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 67/85] fix: minus sign of netlist coordinates taken for the
 end of the component name

---
 gerber/ipc356.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 70f6e03..a2a506f 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -293,8 +293,8 @@ class IPC356_TestRecord(object):
 
         record['net_name'] = line[3:17].strip()
 
-        if len(line) >= 27 and line[26] != '-':
-            offset = line[26:].find('-')
+        if len(line) >= 27 and line[26] not in '- ':
+            offset = line[26:].split()[0].find('-')
             offset = 0 if offset == -1 else offset
         end = 26 + offset
         record['id'] = line[20:end].strip()
-- 
2.43.0


From 6b99cc8a452a985b29ab0499ea74359106bff399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 68/85] fix: negative coordinates of netlist outlines and
 conductors were lost

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index a2a506f..02e6b09 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[-\d\s]*)?Y?(?P<y>[-\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From 09c3531af5da72525fb514bc919e615f6fb8d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 69/85] fix: adjacent nets of a netlist were None

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 02e6b09..a59803e 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From 852d9c96be0f4b466fc90f3a6ad8e652a007142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 70/85] fix: rotation of test records in netlists with radians
 raised TypeError

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index a59803e..b9a0b1f 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -347,7 +347,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 7c66d4b14a616b23a9ff9617d99dfb20fb64f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 71/85] fix: tool definitions could not be read without
 settings

---
 gerber/excellon_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..1aa04cb 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -29,6 +29,7 @@ try:
 except(ImportError):
     from io import StringIO
 
+from .cam import FileSettings
 from .excellon_statements import ExcellonTool
 
 def loads(data, settings=None):
@@ -69,7 +70,7 @@ class ExcellonToolDefinitionParser(object):
 
     def __init__(self, settings=None):
         self.tools = {}
-        self.settings = settings
+        self.settings = settings if settings is not None else FileSettings()
 
     def parse_raw(self, data):
         for line in StringIO(data):
-- 
2.43.0


From fe92b153099b43147a87c9de9bd5a2babbccf165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 72/85] fix: plating of Allegro tool tables was lost

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index 1aa04cb..2f20979 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -95,9 +95,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From 855d6b895bd2e510cccefc2013407301cb8a4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 73/85] fix: settings files with incremental coordinates could
 not be read

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From bc4ebabafabcd268c015354a83c59d7534ac0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 74/85] fix: macros of groups without a statement are written
 empty by the Gerber renderer

---
 gerber/render/rs274x_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..0ea20bf 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -52,6 +52,7 @@ class AMGroupContext(object):
                     raise ValueError('amgroup')
 
             statement = AMParamStmt('AM', name, self._statements_to_string())
+            statement.primitives = self.statements
             return statement
 
     def _statements_to_string(self):
-- 
2.43.0


From 530a687ae881763eaa8c41ce7ad9cdbac9e3fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 75/85] fix: exposure of macro primitives made from cleared
 parts

---
 gerber/am_statements.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 6811839..154b8f0 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -194,7 +194,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position):
         validate_coordinates(position)
@@ -266,7 +266,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -386,7 +386,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, 'off' if primitive.level_polarity == 'clear' else 'on', start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -500,7 +500,7 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        return cls(5, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -880,7 +880,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         height = primitive.height
         center = primitive.position
         rotation = primitive.rotation
-        return cls(21, 'on', width, height, center, rotation)
+        return cls(21, 'off' if primitive.level_polarity == 'clear' else 'on', width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From 530af61c888ed5d77b1d43d1a1c7abdeefdd40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 76/85] fix: macro groups that differ in exposure or in the
 rotation of a polygon are not equivalent

---
 gerber/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index fdf3f3d..2113111 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1287,7 +1287,7 @@ class Polygon(Primitive):
         """
 
         # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
+        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius or self.rotation != other.rotation:
             return False
 
         equiv_pos = tuple(map(add, other.position, offset))
@@ -1389,6 +1389,8 @@ class AMGroup(Primitive):
 
         # We know they have the same number of primitives, so now check them all
         for i in range(0, len(self.primitives)):
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
 
-- 
2.43.0


From b1e2850e3202a6b9d79932d3b2a9d5b5d23ed8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 77/85] fix: holes and polygons of line apertures in the Gerber
 renderer

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 0ea20bf..cb321aa 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -162,9 +162,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 24654d86ad92a221dff612ecc4607359b85e6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 78/85] fix: rendering a file to Gerber text with a file name
 raises TypeError

---
 gerber/render/rs274x_backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index cb321aa..2e4c095 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -503,11 +503,15 @@ class Rs274xContext(GerberContext):
         # TODO Might need to implement this
         pass
 
-    def dump(self):
-        """Write the rendered file to a StringIO steam"""
+    def dump(self, filename=None):
+        """Write the rendered file to a StringIO steam, and to a file if named"""
         statements = map(lambda stmt: stmt.to_gerber(self.settings), self.statements)
         stream = StringIO()
         for statement in statements:
             stream.write(statement + '\n')
 
+        if filename is not None:
+            with open(filename, 'w') as f:
+                f.write(stream.getvalue())
+
         return stream
-- 
2.43.0


From 8ed4492a911ebe0fa636bb4f96a23c0a1cc9bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 79/85] fix: statement of a macro group holds the primitives of
 the last aperture of the macro

---
 gerber/gerber_statements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index ca108bb..da5d123 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,8 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+from copy import deepcopy
+
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     inch, metric)
 
@@ -456,7 +458,8 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # A later build for another aperture replaces our primitives
+        return AMGroup(self.primitives, stmt=deepcopy(self), units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
-- 
2.43.0


From 8cef261e5435f6709b20e7ed43c6f73790c1ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 80/85] fix: data mode and units lines of the report of
 incremental or metric drill files

---
 gerber/excellon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 0805119..3531fe0 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -244,10 +244,10 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += '  Data Mode         %s\n' % (
+            'Absolute' if self.settings.notation == 'absolute' else 'Incremental')
+        rprt += '  Units             %s\n' % (
+            'Inches' if self.settings.units == 'inch' else 'Millimeters')
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
-- 
2.43.0


From 537cf70ba4c92aaff1f1aeea8fe962bfa534e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 81/85] fix: call of to_primitive with arguments it does not
 take, on a path for macro statements as apertures

---
 gerber/rs274x.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a95ade4..2f139e1 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -717,19 +717,10 @@ class GerberParser(object):
 
             if primitive is not None:
 
-                if not isinstance(primitive, AMParamStmt):
-                    primitive.position = (x, y)
-                    primitive.level_polarity = self.level_polarity
-                    primitive.units = self.settings.units
-                    self.primitives.append(primitive)
-                else:
-                    # Aperture Macro
-                    for am_prim in primitive.primitives:
-                        renderable = am_prim.to_primitive((x, y),
-                                                          self.level_polarity,
-                                                          self.settings.units)
-                        if renderable is not None:
-                            self.primitives.append(renderable)
+                primitive.position = (x, y)
+                primitive.level_polarity = self.level_polarity
+                primitive.units = self.settings.units
+                self.primitives.append(primitive)
         self.x, self.y = x, y
 
     def _find_center(self, start, end, offsets):
-- 
2.43.0


From 7432a5020fa3b486d4d39877c916680656aa1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 82/85] fix: dump_svg_str returned nothing

---
 gerber/render/cairo_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8eaf8ab..096bc15 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -161,6 +161,7 @@ class GerberCairoContext(GerberContext):
         """
         self.surface.finish()
         self.surface_buffer.flush()
+        self.surface_buffer.seek(0)
         return self.surface_buffer.read()
 
     def clear(self):
-- 
2.43.0


From f9c583df8a7ec9a1b1ab2727b731e35cc5d96dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 83/85] fix: rendering a board that has no layers on one side

---
 gerber/render/cairo_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 096bc15..a6a9ef1 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -103,6 +103,9 @@ class GerberCairoContext(GerberContext):
                       verbose=False, max_width=800, max_height=600):
         """ Render a set of layers
         """
+        if not layers:
+            return
+
         # Calculate scale parameter
         x_range = [10000, -10000]
         y_range = [10000, -10000]
-- 
2.43.0


From 670c5c5dfe6d2d6956ed4e8a22e2f70141f3bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 84/85] fix: dump_json of programs with aperture macros

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 2f139e1..03de630 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -317,7 +317,7 @@ class GerberParser(object):
 
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
-        return json.dumps(stmts)
+        return json.dumps(stmts, default=vars)
 
     def dump_str(self):
         string = ""
-- 
2.43.0


From f4eb8163d68b401754bbbff9efb3be9911c6dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 85/85] fix: vertices of a line drawn with a polygon aperture

---
 gerber/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 2113111..aea8ef8 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -307,7 +307,7 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
+                points = [tuple(map(add, point, vertex))
                           for vertex in self.aperture.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
-- 
2.43.0


From 07044995413d3727133bcfa2bd90446b6c9c5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 01/51] fix: extend unfinished edges beyond the whole bounding
 polygon before clipping

---
 foronoi/graph/polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..8250862 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -149,13 +149,15 @@ class Polygon(Subject):
 
     def _finish_edge(self, edge):
         # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        margin = (self.max_x - self.min_x) + (self.max_y - self.min_y)
+        sweep_line = self.min_y - 2 * margin
+        max_y = self.max_y + margin
 
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start = edge.get_origin(y=sweep_line, max_y=max_y)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
-- 
2.43.0


From 6c0d62cffaae06754b3fd67eb793c45060906dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 02/51] fix: clip an edge at the intersection point that
 belongs to the chosen distance

---
 foronoi/graph/polygon.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 8250862..5964970 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -1,5 +1,7 @@
 from foronoi.graph import Coordinate, Vertex, HalfEdge
 from foronoi.graph.algebra import Algebra
+from decimal import Decimal
+
 import numpy as np
 
 from foronoi.observers.message import Message
@@ -170,6 +172,9 @@ class Polygon(Subject):
 
         return edge
 
+    def _tolerance(self):
+        return max(self.max_x - self.min_x, self.max_y - self.min_y) * Decimal("1e-10")
+
     def _on_edge(self, point):
         vertices = self.points + self.points[0:1]
         for i in range(0, len(vertices) - 1):
@@ -236,9 +241,8 @@ class Polygon(Subject):
 
         # Find the intersection point that is furthest away from the start
         if points:
-            distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
-            if distances:
-                point = points[np.argmax(distances)]
+            points = [p for p in points if Algebra.distance(orig, p) <= max_distance + self._tolerance()]
+            if points:
+                point = max(points, key=lambda p: Algebra.distance(orig, p))
 
         return point
-- 
2.43.0


From 61e969bcf53de10b89ec5904115ee4e0239216c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:53 +0000
Subject: [PATCH 03/51] fix: order the polygon's vertices around a point that
 is strictly inside the polygon

---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 5964970..6a1fb4d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -26,7 +26,7 @@ class Polygon(Subject):
         min_x = min([p.xd for p in self.points])
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
-        center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
+        center = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
-- 
2.43.0


From 0ea226bd508f0cc1b41d0415d3d9b1a478862ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 04/51] fix: do not miss edges that leave the bounding polygon
 through a corner

---
 foronoi/graph/algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 0ed5ab5..7c76b87 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -43,7 +43,7 @@ class Algebra:
         t1 = np.cross(v2, v1) / np.dot(v2, v3)
         t2 = np.dot(v1, v3) / np.dot(v2, v3)
 
-        if t1 > 0.0 and 0.0 <= t2 <= 1.0:
+        if t1 > 0.0 and -1e-12 <= t2 <= 1.0 + 1e-12:
             return [orig + t1 * direction]
         return []
 
-- 
2.43.0


From 9a84e76cb39e3686d1730a22a0d9b980a6635c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 05/51] fix: clip edges that meet each other on the bounding
 polygon

---
 foronoi/graph/polygon.py | 42 +++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 6a1fb4d..ce43670 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -40,10 +40,18 @@ class Polygon(Subject):
 
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
-        clockwise = sorted(vertices,
-                           key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
+        clockwise = sorted(vertices, key=self._get_clockwise_key)
         return clockwise
 
+    def _get_clockwise_key(self, vertex):
+        # Vertices that share a location are sorted by the direction in which their edges leave the boundary
+        angle = round((-180 - Algebra.calculate_angle(vertex, self.center)) % 360, 9) % 360
+        direction = -180
+        for edge in vertex.connected_edges[:1]:
+            inward = Algebra.calculate_angle(self.center, vertex)
+            direction = (Algebra.calculate_angle(edge.target, vertex) - inward + 180) % 360 - 180
+        return angle, direction
+
     @staticmethod
     def _get_closest_point(position, points):
         distances = [Algebra.distance(position, p) for p in points]
@@ -109,7 +117,7 @@ class Polygon(Subject):
             # Set previous edge
             previous_edge = edge
 
-        existing_vertices = [i for i in existing_vertices if self.inside(i)]
+        existing_vertices = [i for i in existing_vertices if self._strictly_inside(i)]
 
         return edges, vertices[:-1] + existing_vertices
 
@@ -134,15 +142,16 @@ class Polygon(Subject):
         resulting_edges = list()
         for edge in edges:
 
-            if edge.get_origin() is None or not self.inside(edge.get_origin()):
-                self._finish_edge(edge)
-
-            if edge.twin.get_origin() is None or not self.inside(edge.twin.get_origin()):
-                self._finish_edge(edge.twin)
+            for half_edge in (edge, edge.twin):
+                if half_edge.get_origin() is None or not self._strictly_inside(half_edge.get_origin()):
+                    self._finish_edge(half_edge)
 
-            if edge.get_origin() is not None and edge.twin.get_origin() is not None:
+            if self._remains(edge):
                 resulting_edges.append(edge)
             else:
+                for vertex in (edge.origin, edge.twin.origin):
+                    if vertex in self.polygon_vertices:
+                        self.polygon_vertices.remove(vertex)
                 edge.delete()
                 edge.twin.delete()
                 self.notify_observers(Message.DEBUG, payload=f"Edges {edge} and {edge.twin} deleted!")
@@ -175,6 +184,21 @@ class Polygon(Subject):
     def _tolerance(self):
         return max(self.max_x - self.min_x, self.max_y - self.min_y) * Decimal("1e-10")
 
+    def _strictly_inside(self, point):
+        vertices = self.points + self.points[0:1]
+        for start, end in zip(vertices, vertices[1:]):
+            cross = (end.xd - start.xd) * (point.yd - start.yd) - (end.yd - start.yd) * (point.xd - start.xd)
+            if abs(cross) <= self._tolerance() * Algebra.distance(start, end):
+                return False
+        return self.inside(point)
+
+    def _remains(self, edge):
+        start, end = edge.get_origin(), edge.twin.get_origin()
+        if start is None or end is None:
+            return False
+        on_boundary = edge.origin in self.polygon_vertices and edge.twin.origin in self.polygon_vertices
+        return not on_boundary or Algebra.distance(start, end) > self._tolerance()
+
     def _on_edge(self, point):
         vertices = self.points + self.points[0:1]
         for i in range(0, len(vertices) - 1):
-- 
2.43.0


From 860eb64f3a0bf30514b09f6e471c5969c7617bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 06/51] fix: combine all edges and vertices of zero length
 edges, also with rounding errors

---
 foronoi/algorithm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..efe9c20 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from queue import PriorityQueue
 from typing import List
 
@@ -545,10 +546,12 @@ class Algorithm(Subject):
         """
 
         resulting_edges = []
+        poly = self.bounding_poly
+        tolerance = max(poly.max_x - poly.min_x, poly.max_y - poly.min_y) * Decimal("1e-10")
         for edge in self.edges:
             start = edge.get_origin()
             end = edge.twin.get_origin()
-            if start.xd == end.xd and start.yd == end.yd:
+            if abs(start.xd - end.xd) <= tolerance and abs(start.yd - end.yd) <= tolerance:
 
                 # Combine the vertices
                 v1: Vertex = edge.origin
@@ -557,8 +560,8 @@ class Algorithm(Subject):
                 # Move connected edges from v1 to v2
                 for connected in v1.connected_edges:
                     connected.origin = v2
-                    v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
+                v1.connected_edges = []
 
                 # Remove vertex v1
                 self._vertices.remove(v1)
@@ -569,4 +572,4 @@ class Algorithm(Subject):
 
             else:
                 resulting_edges.append(edge)
-            self.edges = resulting_edges
+        self.edges = resulting_edges
-- 
2.43.0


From 70e82b9c41483c6a8fef218d254b50cd3489fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 07/51] fix: rebalance the status tree after inserting a site
 at the same height

---
 foronoi/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index efe9c20..82b66a3 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -326,6 +326,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
-- 
2.43.0


From 1cc571f3a9a51e50e54163a4eb4900608da7116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 08/51] fix: do not take the square root of a negative rounding
 error

---
 foronoi/nodes/breakpoint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..da88225 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -99,9 +99,11 @@ class Breakpoint:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
             # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
-                v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+            discriminant = v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + \
+                l ** 2 * (u - v) ** 2
+
+            # Due to rounding errors, the discriminant can be slightly below zero
+            x = -(Decimal.sqrt(max(discriminant, Decimal(0))) + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From 80051ee877b5884f96ee9e6d10f6155be1a348a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 09/51] fix: start with a clean polygon when the bounding
 polygon is reused

---
 foronoi/graph/polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ce43670..7107af6 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -139,6 +139,7 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From 38d7febbf71fc5c9f7295a6977bb49b11b286501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 10/51] fix: start with a clean state when another diagram is
 created with the same object

---
 foronoi/algorithm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 82b66a3..1c37772 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -112,6 +112,15 @@ class Algorithm(Subject):
         # Store the points for visualization
         self.sites = points
 
+        # Forget the state of a previous diagram
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Initialize event queue with all site events.
         for index, point in enumerate(points):
             # Create site event
-- 
2.43.0


From c32329528bcba346a990531a61b7248d9073bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 11/51] fix: do not write the settings of an observer into the
 presets

---
 foronoi/observers/voronoi_observer.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..26e22dd 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,21 +82,18 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
-            settings.update(self.settings)
+            settings = {**Presets.construction, **self.settings}
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
-            settings.update(self.settings)
+            settings = {**Presets.clipping, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
-            settings.update(self.settings)
+            settings = {**Presets.final, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
 
-- 
2.43.0


From c78bd59182fd6738dc1bd97421dbaa3347fa9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:16 +0000
Subject: [PATCH 12/51] fix: pass the figure size of an observer to the
 visualizer

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index 26e22dd..693573f 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,18 +81,18 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.construction, **self.settings}
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.clipping, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.final, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 973c609895d49518c3db1574b9cfa1784fb126a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:19 +0000
Subject: [PATCH 13/51] fix: draw a bounding circle around its center

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..830a9bf 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From 207d22149768eea545548bfa916368fad3f3f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 14/51] fix: show the triangle of a circle event when it is
 asked for

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 830a9bf..8cad2a3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 607483a2f59482f923180fe28b45be53061407f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 15/51] fix: label the arcs of the beach line with their own
 site

---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 8cad2a3..7806a51 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From d2af7be14a0a68861732d876e40956238eef08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 16/51] fix: accept a sweep line at zero in the visualizer

---
 foronoi/visualization/visualizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 7806a51..6da4bfa 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -336,7 +336,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -361,7 +361,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -390,7 +390,7 @@ class Visualizer:
 
         """
         arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -449,7 +449,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
-- 
2.43.0


From b7c1bfdace4432a64e7046ab20943f8a3aac7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:29 +0000
Subject: [PATCH 17/51] fix: delete a node with two children from the tree

---
 foronoi/tree/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..53de270 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -149,11 +149,11 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
             if root.left is None:
@@ -164,7 +164,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 4e7c9ea8de280dc81be197dcc9df9994fa992cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 18/51] fix: let a reused bounding polygon notify the observers
 of its new parent

---
 foronoi/observers/subject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..cd17ab1 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -75,6 +75,7 @@ class Subject:
         Add child
         """
         self._children.append(child)
+        self._update_children()
 
     def _update_children(self):
         """
-- 
2.43.0


From 6bb5c4372e9c5fbc7b0c3ba327b239502eebd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 19/51] fix: accept zero as the top of the canvas for
 breakpoints without an end

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index da88225..5bc24ba 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From be97565824d9b5c7e65516c9a60b996b50e73d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 20/51] fix: start the tour along the bounding polygon in the
 right cell

---
 foronoi/graph/polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 7107af6..ba34c2f 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -81,6 +81,12 @@ class Polygon(Subject):
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
         cell = self._get_closest_point(vertices[0], points)
+
+        # When edges end on the polygon, the tour starts in the cell that lies behind the last one of them
+        for vertex in vertices:
+            if len(vertex.connected_edges) > 0:
+                cell = vertex.connected_edges[0].twin.incident_point
+
         previous_edge = None
         for index in range(0, len(vertices) - 1):
 
-- 
2.43.0


From b23641e9bedc2c6e058ccc95fc8ceb5906eea3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 21/51] fix: update the heights of all ancestors while
 rebalancing the tree

---
 foronoi/tree/tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 53de270..9d98d57 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,7 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        node.update_height()
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From fc4e699fdce6a79910bfa03086c7e17cc4faa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 22/51] fix: give the child of a deleted root the parent of the
 deleted node

---
 foronoi/tree/tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 9d98d57..6058b3e 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -156,11 +156,14 @@ class Tree:
             root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
-            if root.left is None:
-                return root.right
+            if root.left is None or root.right is None:
+                child = root.right if root.left is None else root.left
 
-            elif root.right is None:
-                return root.left
+                # The child takes the place of the deleted node
+                if child is not None:
+                    child.parent = root.parent
+
+                return child
 
             temp = root.right.minimum()
             root.data = temp.data
-- 
2.43.0


From 5fe58195ab7279feaa199dc61ed8006750e60c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 23/51] fix: balance the tree when equal keys are inserted

---
 foronoi/tree/tree.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 6058b3e..7bfda28 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -119,29 +119,8 @@ class Tree:
         # Update the height of the ancestor node
         root.update_height()
 
-        # If the node is unbalanced, then try out the 4 cases
-        balance = root.balance
-        # root = Tree.balance(root)
-
-        # Case 1 - Left Left
-        if balance > 1 and node_key < root.left.get_key(**kwargs):
-            return Tree.rotate_right(root)
-
-        # Case 2 - Right Right
-        if balance < -1 and node_key > root.right.get_key(**kwargs):
-            return Tree.rotate_left(root)
-
-        # Case 3 - Left Right
-        if balance > 1 and node_key > root.left.get_key(**kwargs):
-            root.left = Tree.rotate_left(root.left)
-            return Tree.rotate_right(root)
-
-        # Case 4 - Right Left
-        if balance < -1 and node_key < root.right.get_key(**kwargs):
-            root.right = Tree.rotate_right(root.right)
-            return Tree.rotate_left(root)
-
-        return root
+        # Balance the tree
+        return Tree.balance(root)
 
     @staticmethod
     def delete(root: Node, key: int, **kwargs):
-- 
2.43.0


From 70a64604fa02087d65a84cda78a367acf21d0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 24/51] fix: delete the node whose data moves up, also when
 there are equal keys

---
 foronoi/tree/tree.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 7bfda28..61ab352 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -146,7 +146,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
+            root.right = Tree.delete_minimum(root.right)
 
         # If the tree has only one node, simply return it
         if root is None:
@@ -160,6 +160,27 @@ class Tree:
 
         return root
 
+    @staticmethod
+    def delete_minimum(root: Node):
+        """
+        Delete the node with the smallest key from a tree.
+
+        :param root: (Node) The root of the tree
+        :return: (Node) The root of the updated tree, None if there are no nodes left
+        """
+        if root.left is None:
+            if root.right is not None:
+                root.right.parent = root.parent
+            return root.right
+
+        root.left = Tree.delete_minimum(root.left)
+
+        # Update the height of the ancestor node
+        root.update_height()
+
+        # Balance the tree
+        return Tree.balance(root)
+
     @staticmethod
     def balance_and_propagate(node):
         """
-- 
2.43.0


From f62b386afc4950f2cd8a9f8631df2a5febbe3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 25/51] fix: send the messages of a shared bounding polygon to
 the diagram that is being created

---
 foronoi/algorithm.py         | 3 +++
 foronoi/observers/subject.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 1c37772..c3a1b69 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -112,6 +112,9 @@ class Algorithm(Subject):
         # Store the points for visualization
         self.sites = points
 
+        # The bounding polygon could have been used for another diagram in the meantime
+        self.bounding_poly.inherit_observers_from(self)
+
         # Forget the state of a previous diagram
         self.event_queue = PriorityQueue()
         self.event = None
diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index cd17ab1..2360fdb 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -66,6 +66,10 @@ class Subject:
         parent: Subject
             The parent to inherit observers from
         """
+        # A subject listens to one parent at a time
+        if self in self._root_sender._children:
+            self._root_sender._children.remove(self)
+
         parent._add_child(self)
         self._root_sender = parent
         self._child_sender = self
-- 
2.43.0


From 28e7334b19f7d6fc83b28b2a42228f8461ef9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 26/51] fix: accept a float as canvas offset

---
 foronoi/visualization/visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 6da4bfa..a55cd5f 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -547,6 +547,7 @@ class Visualizer:
 
     @staticmethod
     def _canvas_size(bounding_polygon, offset):
+        offset = Decimal(str(offset))
         max_y = bounding_polygon.max_y + offset
         max_x = bounding_polygon.max_x + offset
         min_x = bounding_polygon.min_x - offset
-- 
2.43.0


From d2ceba05274c166c6d61fe11890649f60faf2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 27/51] fix: calculate breakpoints of sites at nearly the same
 height precisely

---
 foronoi/nodes/breakpoint.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 5bc24ba..afa2fed 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -78,8 +78,6 @@ class Breakpoint:
         b = i.yd
         c = j.xd
         d = j.yd
-        u = 2 * (b - l)
-        v = 2 * (d - l)
 
         # Handle the case where the two points have the same y-coordinate (breakpoint is in the middle)
         if i.yd == j.yd:
@@ -96,14 +94,16 @@ class Breakpoint:
         elif j.yd == l:
             result.xd = j.xd
         else:
-            # We now need to solve for x
-            # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
-            # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            discriminant = v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + \
-                l ** 2 * (u - v) ** 2
-
-            # Due to rounding errors, the discriminant can be slightly below zero
-            x = -(Decimal.sqrt(max(discriminant, Decimal(0))) + a * v - c * u) / (u - v)
+            # We now need to solve for x, as seen from (a, l)
+            # (x**2 + u**2) / (2 * u) = ((x - w)**2 + v**2) / (2 * v)
+            u, v, w = b - l, d - l, c - a
+            root = Decimal.sqrt(max(u * v * ((b - d) ** 2 + w ** 2), Decimal(0)))
+
+            # Use the formula that does not subtract numbers of nearly the same size
+            if w > 0:
+                x = a + u * (w ** 2 + v * (d - b)) / (u * w + root)
+            else:
+                x = a + (u * w - root) / (b - d)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From b755885476a79352b19f60cd87464785ac6a48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 28/51] fix: determine the turn direction of sites around a
 center that is far away

---
 foronoi/graph/algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 7c76b87..12f5ae8 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -67,11 +67,11 @@ class Algebra:
 
     @staticmethod
     def check_clockwise(a, b, c, center):
-        angle_1 = Algebra.calculate_angle(a, center)
-        angle_2 = Algebra.calculate_angle(b, center)
-        angle_3 = Algebra.calculate_angle(c, center)
+        def turn(p, q):
+            # Positive when q is counter-clockwise from p, as seen from the center
+            return (p.xd - center.xd) * (q.yd - center.yd) - (p.yd - center.yd) * (q.xd - center.xd)
 
-        counter_clockwise = (angle_3 - angle_1) % 360 > (angle_3 - angle_2) % 360
+        counter_clockwise = sum(1 for p, q in ((a, b), (b, c), (c, a)) if turn(p, q) > 0) >= 2
 
         if counter_clockwise:
             return False
-- 
2.43.0


From 29b9e2a353724966960425840d51f9e6e69ab110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 29/51] fix: handle very large circles at the right height

---
 foronoi/events/circle_event.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foronoi/events/circle_event.py b/foronoi/events/circle_event.py
index ff5bcf1..f37f2a1 100644
--- a/foronoi/events/circle_event.py
+++ b/foronoi/events/circle_event.py
@@ -57,6 +57,11 @@ class CircleEvent(Event):
         -------
         y: Decimal
         """
+        if self.point_triple is not None and self.center.yd > self.point_triple[0].yd:
+            # Avoid the difference of two large numbers for circles that are very large
+            point = self.point_triple[0]
+            return point.yd - (point.xd - self.center.xd) ** 2 / (self.center.yd - point.yd + self.radius)
+
         return self.center.yd - self.radius
 
     def _get_triangle(self):
-- 
2.43.0


From 2ee8bdd99cf3d02351bacd069678a0861b41bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 30/51] fix: clip edges that start very far away from the
 bounding polygon

---
 foronoi/graph/polygon.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ba34c2f..e540762 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -178,7 +178,7 @@ class Polygon(Subject):
         end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
         # Get point of intersection
-        point = self._get_intersection_point(end, start)
+        point = self._get_intersection_point(*self._shorten(edge, end, start))
 
         # Create vertex
         v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
@@ -188,6 +188,27 @@ class Polygon(Subject):
 
         return edge
 
+    def _shorten(self, edge, start, end):
+        # Ends that are very far away are too imprecise, so move them along the bisector to the surroundings of the polygon
+        a, b = edge.incident_point, edge.twin.incident_point
+        size = Algebra.distance(a, b)
+        dx, dy = (a.yd - b.yd) / size, (b.xd - a.xd) / size
+        x, y = (a.xd + b.xd) / 2, (a.yd + b.yd) / 2
+
+        def position(point):
+            return (point.xd - x) * dx + (point.yd - y) * dy
+
+        reach = 10 * ((self.max_x - self.min_x) + (self.max_y - self.min_y))
+        first, last = position(self.center) - reach, position(self.center) + reach
+
+        points = []
+        for point in (start, end):
+            if point is not None and not first <= position(point) <= last:
+                distance = first if position(point) < first else last
+                point = Coordinate(x + distance * dx, y + distance * dy)
+            points.append(point)
+        return points
+
     def _tolerance(self):
         return max(self.max_x - self.min_x, self.max_y - self.min_y) * Decimal("1e-10")
 
-- 
2.43.0


From c78743a4d04bf08a94a9801ccbc52b0e2379aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 31/51] fix: keep edges together that meet on the bounding
 polygon

---
 foronoi/graph/polygon.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index e540762..e624e23 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -177,8 +177,11 @@ class Polygon(Subject):
         # End should be a vertex
         end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
-        # Get point of intersection
-        point = self._get_intersection_point(*self._shorten(edge, end, start))
+        # Get point of intersection, edges that meet on the polygon should keep on meeting there
+        if start and self._on_outline(start):
+            point = start
+        else:
+            point = self._get_intersection_point(*self._shorten(edge, end, start))
 
         # Create vertex
         v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
@@ -220,6 +223,14 @@ class Polygon(Subject):
                 return False
         return self.inside(point)
 
+    def _on_outline(self, point):
+        vertices = self.points + self.points[0:1]
+        distances = []
+        for start, end in zip(vertices, vertices[1:]):
+            cross = (end.xd - start.xd) * (point.yd - start.yd) - (end.yd - start.yd) * (point.xd - start.xd)
+            distances.append(cross / Algebra.distance(start, end))
+        return abs(max(distances)) <= self._tolerance()
+
     def _remains(self, edge):
         start, end = edge.get_origin(), edge.twin.get_origin()
         if start is None or end is None:
-- 
2.43.0


From edca94bbdebf7e2ec884d168fa61a0df5d2e2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 32/51] fix: areas of cells far from the origin lost their
 digits

---
 foronoi/graph/point.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/point.py b/foronoi/graph/point.py
index 17772f8..b83ba55 100644
--- a/foronoi/graph/point.py
+++ b/foronoi/graph/point.py
@@ -113,8 +113,10 @@ class Point(Coordinate):
         coordinates = self.vertices()
         if coordinates is None:
             return [], []
-        x = [coordinate.x for coordinate in coordinates]
-        y = [coordinate.y for coordinate in coordinates]
+
+        # Relative to this point, because products of large coordinates are rounded to more than the size of a cell
+        x = [float(coordinate.xd - self.xd) for coordinate in coordinates]
+        y = [float(coordinate.yd - self.yd) for coordinate in coordinates]
         return x, y
 
     def __sub__(self, other):
-- 
2.43.0


From 0a09fbf4fb83de3806248c98ebb0efd832e14951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 33/51] fix: edges were clipped imprecisely in polygons far
 from the origin

---
 foronoi/graph/polygon.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index e624e23..9f62a2a 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -184,7 +184,7 @@ class Polygon(Subject):
             point = self._get_intersection_point(*self._shorten(edge, end, start))
 
         # Create vertex
-        v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
+        v = Vertex(point.xd, point.yd) if point is not None else Vertex(None, None)
         v.connected_edges.append(edge)
         edge.origin = v
         self.polygon_vertices.append(v)
@@ -287,7 +287,15 @@ class Polygon(Subject):
         return inside
 
     def _get_intersection_point(self, orig, end):
-        p = self.points + [self.points[0]]
+        if not orig or not end:
+            return None
+
+        # Floats are too coarse far from the origin, so use a local origin in the surroundings of the polygon
+        step = 100 * max(self.max_x - self.min_x, self.max_y - self.min_y)
+        offset = Coordinate(self.min_x // step * step, self.min_y // step * step)
+        orig, end = orig - offset, end - offset
+
+        p = [point - offset for point in self.points + [self.points[0]]]
         points = []
 
         point = None
@@ -307,5 +315,6 @@ class Polygon(Subject):
             points = [p for p in points if Algebra.distance(orig, p) <= max_distance + self._tolerance()]
             if points:
                 point = max(points, key=lambda p: Algebra.distance(orig, p))
+                point = Coordinate(point.xd + offset.xd, point.yd + offset.yd)
 
         return point
-- 
2.43.0


From f0e079222374dcfa6319fea796ce1ec8bf0336e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 34/51] fix: arcs were drawn imprecisely far from the origin

---
 foronoi/nodes/arc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foronoi/nodes/arc.py b/foronoi/nodes/arc.py
index 52f79db..11cada0 100644
--- a/foronoi/nodes/arc.py
+++ b/foronoi/nodes/arc.py
@@ -55,7 +55,6 @@ class Arc:
         # Calculate the y value for each element of the x vector
 
         u = 2 * (i.y - sweep_line)
-        v = (x ** 2 - 2 * i.x * x + i.x ** 2 + i.y ** 2 - sweep_line ** 2)
-        y = v/u
+        y = (x - i.x) ** 2 / u + (i.y + sweep_line) / 2
 
         return y
-- 
2.43.0


From c00aac4cea68072045e9ccafe4839cf0264ffc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 35/51] fix: combining the corners of a cell smaller than the
 tolerance did not end

---
 foronoi/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index c3a1b69..578a423 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -564,7 +564,8 @@ class Algorithm(Subject):
         for edge in self.edges:
             start = edge.get_origin()
             end = edge.twin.get_origin()
-            if abs(start.xd - end.xd) <= tolerance and abs(start.yd - end.yd) <= tolerance:
+            combined = start is end  # A tiny cell keeps its last edge
+            if not combined and abs(start.xd - end.xd) <= tolerance and abs(start.yd - end.yd) <= tolerance:
 
                 # Combine the vertices
                 v1: Vertex = edge.origin
-- 
2.43.0


From 47bf15e6658d68142e6513fd85a8a004a5180dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:58 +0000
Subject: [PATCH 36/51] fix: count a corner of the polygon that is given twice
 once

---
 foronoi/graph/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 9f62a2a..1b63d42 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -21,6 +21,9 @@ class Polygon(Subject):
 
         super().__init__()
         points = [Coordinate(x, y) for x, y in tuples]
+
+        # A corner that is given more than once, as in a closed ring, counts once
+        points = list({(p.xd, p.yd): p for p in points}.values())
         self.points = points
         min_y = min([p.yd for p in self.points])
         min_x = min([p.xd for p in self.points])
-- 
2.43.0


From 070c8b62da774cc3a3c49cee5474a13d3a77fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:27 +0000
Subject: [PATCH 37/51] fix: a site that is given twice has one cell

---
 foronoi/algorithm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 578a423..00df09f 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -83,6 +83,9 @@ class Algorithm(Subject):
         # List of vertices
         self._vertices = set()
 
+        # The site that has the cell, per location
+        self._site_at = dict()
+
         # Whether to remove zero length edges
         self.remove_zero_length_edges = remove_zero_length_edges
 
@@ -123,6 +126,7 @@ class Algorithm(Subject):
         self._arcs = set()
         self.edges = list()
         self._vertices = set()
+        self._site_at = dict()
 
         # Initialize event queue with all site events.
         for index, point in enumerate(points):
@@ -225,7 +229,9 @@ class Algorithm(Subject):
             edges=self.edges, vertices=self._vertices, points=self.sites, event_queue=self.event_queue
         )
 
-        self.edges, self._vertices = self.bounding_poly.finish_polygon(self.edges, self._vertices, self.sites)
+        self.edges, self._vertices = self.bounding_poly.finish_polygon(
+            self.edges, self._vertices, list(self._site_at.values())
+        )
 
         if self.remove_zero_length_edges:
             self.clean_up_zero_length_edges()
@@ -263,8 +269,12 @@ class Algorithm(Subject):
             The site event to handle.
         """
 
-        # Create a new arc
+        # A site at the location of an earlier site gets no cell
         point_i = event.point
+        if self._site_at.setdefault((point_i.xd, point_i.yd), point_i) is not point_i:
+            return
+
+        # Create a new arc
         new_arc = Arc(origin=point_i)
         self._arcs.add(new_arc)
 
-- 
2.43.0


From 2aa56a0c78c5ceff364eacfdae59920a6c0fb94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:22 +0000
Subject: [PATCH 38/51] fix: a cell that lies outside the polygon kept a border
 without ends

---
 foronoi/graph/half_edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/half_edge.py b/foronoi/graph/half_edge.py
index 4d035dd..b89140a 100644
--- a/foronoi/graph/half_edge.py
+++ b/foronoi/graph/half_edge.py
@@ -171,4 +171,4 @@ class HalfEdge:
             ), f"Incident points {self.next.incident_point} and {self.incident_point} do not match"
 
             # Set the new "first edge" pointer
-            self.incident_point.first_edge = self.next
\ No newline at end of file
+            self.incident_point.first_edge = self.next if self.next is not self else None
\ No newline at end of file
-- 
2.43.0


From 9728b5e975e17f41e470e2b53f7a6841d461c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:17 +0000
Subject: [PATCH 39/51] fix: the sweep ended too early for sites outside the
 polygon

---
 foronoi/graph/polygon.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 1b63d42..1e59383 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -133,7 +133,7 @@ class Polygon(Subject):
     def get_coordinates(self):
         return [(i.xd, i.yd) for i in self.points]
 
-    def finish_edges(self, edges, **kwargs):
+    def finish_edges(self, edges, points=(), **kwargs):
         """
         Clip the edges to the bounding box/polygon, and remove edges and vertices that are fully outside.
         Inserts vertices at the clipped edges' endings.
@@ -142,6 +142,8 @@ class Polygon(Subject):
         ----------
         edges: list(HalfEdge)
             A list of edges in the Voronoi diagram. Every edge should be presented only by one half edge.
+        points: list(Point)
+            The list of cell points
 
         Returns
         -------
@@ -149,12 +151,18 @@ class Polygon(Subject):
             A list of clipped edges
         """
         self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
+        # The size of the area with the polygon and the cell points, which could be outside of it
+        xs = [self.min_x, self.max_x] + [point.xd for point in points]
+        ys = [self.min_y, self.max_y] + [point.yd for point in points]
+        margin = (max(xs) - min(xs)) + (max(ys) - min(ys))
+
         resulting_edges = list()
         for edge in edges:
 
             for half_edge in (edge, edge.twin):
                 if half_edge.get_origin() is None or not self._strictly_inside(half_edge.get_origin()):
-                    self._finish_edge(half_edge)
+                    self._finish_edge(half_edge, margin)
 
             if self._remains(edge):
                 resulting_edges.append(edge)
@@ -168,9 +176,8 @@ class Polygon(Subject):
 
         return resulting_edges
 
-    def _finish_edge(self, edge):
+    def _finish_edge(self, edge, margin):
         # Sweep line position
-        margin = (self.max_x - self.min_x) + (self.max_y - self.min_y)
         sweep_line = self.min_y - 2 * margin
         max_y = self.max_y + margin
 
-- 
2.43.0


From 09aaf3a2f8304af554566d3b3404fca90031fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 40/51] fix: the only cell in the polygon could get the border
 of another one

---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 1e59383..7ddbcad 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -83,7 +83,7 @@ class Polygon(Subject):
         """
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
-        cell = self._get_closest_point(vertices[0], points)
+        cell = self._get_closest_point(self.center, points)
 
         # When edges end on the polygon, the tour starts in the cell that lies behind the last one of them
         for vertex in vertices:
-- 
2.43.0


From 907d8aa3f71e202a93663b0a917a13865d7f7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 41/51] fix: an edge along the outline, between cell points on
 both sides of it, was clipped badly

---
 foronoi/graph/polygon.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 7ddbcad..b113430 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -164,7 +164,7 @@ class Polygon(Subject):
                 if half_edge.get_origin() is None or not self._strictly_inside(half_edge.get_origin()):
                     self._finish_edge(half_edge, margin)
 
-            if self._remains(edge):
+            if self._remains(edge) and not self._along_outline(edge):
                 resulting_edges.append(edge)
             else:
                 for vertex in (edge.origin, edge.twin.origin):
@@ -233,13 +233,30 @@ class Polygon(Subject):
                 return False
         return self.inside(point)
 
-    def _on_outline(self, point):
+    def _distance(self, point):
+        # The distance to the polygon, which is negative inside of it
         vertices = self.points + self.points[0:1]
         distances = []
         for start, end in zip(vertices, vertices[1:]):
             cross = (end.xd - start.xd) * (point.yd - start.yd) - (end.yd - start.yd) * (point.xd - start.xd)
             distances.append(cross / Algebra.distance(start, end))
-        return abs(max(distances)) <= self._tolerance()
+        return max(distances)
+
+    def _on_outline(self, point):
+        return abs(self._distance(point)) <= self._tolerance()
+
+    def _along_outline(self, edge):
+        # The edge between cell points on both sides of the outline can run along the outline
+        a, b = edge.incident_point, edge.twin.incident_point
+        if max(self._distance(a), self._distance(b)) <= self._tolerance():
+            return False
+
+        size = Algebra.distance(a, b)
+        x, y = (a.xd + b.xd) / 2, (a.yd + b.yd) / 2
+        on_bisector = [
+            abs((p.xd - x) * (b.xd - a.xd) + (p.yd - y) * (b.yd - a.yd)) <= self._tolerance() * size for p in self.points
+        ]
+        return any(start and end for start, end in zip(on_bisector, on_bisector[1:] + on_bisector[:1]))
 
     def _remains(self, edge):
         start, end = edge.get_origin(), edge.twin.get_origin()
-- 
2.43.0


From e9b2629bfeec886bacf83346031e5970446d416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:36 +0000
Subject: [PATCH 42/51] fix: the area of the cell of a site far outside the
 polygon was imprecise

---
 foronoi/graph/point.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/point.py b/foronoi/graph/point.py
index b83ba55..a9903ff 100644
--- a/foronoi/graph/point.py
+++ b/foronoi/graph/point.py
@@ -114,9 +114,9 @@ class Point(Coordinate):
         if coordinates is None:
             return [], []
 
-        # Relative to this point, because products of large coordinates are rounded to more than the size of a cell
-        x = [float(coordinate.xd - self.xd) for coordinate in coordinates]
-        y = [float(coordinate.yd - self.yd) for coordinate in coordinates]
+        # Relative to a corner, because products of large coordinates are rounded to more than the size of a cell
+        x = [float(coordinate.xd - coordinates[0].xd) for coordinate in coordinates]
+        y = [float(coordinate.yd - coordinates[0].yd) for coordinate in coordinates]
         return x, y
 
     def __sub__(self, other):
-- 
2.43.0


From b0bfd8b16f6d09191f3ac25e693256bcb0fdb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:10 +0000
Subject: [PATCH 43/51] fix: order the vertices on the outline that share a
 location up to rounding errors

The angles were rounded, so vertices next to each other could get different angles and
the order of their edges was lost.
---
 foronoi/graph/polygon.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index b113430..11e4c66 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -43,17 +43,28 @@ class Polygon(Subject):
 
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
-        clockwise = sorted(vertices, key=self._get_clockwise_key)
-        return clockwise
+        clockwise = sorted(vertices, key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
 
-    def _get_clockwise_key(self, vertex):
         # Vertices that share a location are sorted by the direction in which their edges leave the boundary
-        angle = round((-180 - Algebra.calculate_angle(vertex, self.center)) % 360, 9) % 360
+        groups = []
+        for vertex in clockwise:
+            if groups and self._share_location(groups[-1][-1], vertex):
+                groups[-1].append(vertex)
+            else:
+                groups.append([vertex])
+        if len(groups) > 1 and self._share_location(groups[-1][-1], groups[0][0]):
+            groups[0] = groups.pop() + groups[0]
+        return [vertex for group in groups for vertex in sorted(group, key=self._get_direction)]
+
+    def _share_location(self, a, b):
+        return Algebra.distance(a, b) <= 2 * self._tolerance()
+
+    def _get_direction(self, vertex):
         direction = -180
         for edge in vertex.connected_edges[:1]:
             inward = Algebra.calculate_angle(self.center, vertex)
             direction = (Algebra.calculate_angle(edge.target, vertex) - inward + 180) % 360 - 180
-        return angle, direction
+        return direction
 
     @staticmethod
     def _get_closest_point(position, points):
-- 
2.43.0


From 4526b5694ae6287030655ece341029da15db781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:10 +0000
Subject: [PATCH 44/51] fix: three points that are on one line up to rounding
 errors have no circle

The circle was the result of rounding errors only, so arcs disappeared in the wrong order.
---
 foronoi/events/circle_event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foronoi/events/circle_event.py b/foronoi/events/circle_event.py
index f37f2a1..f8d308d 100644
--- a/foronoi/events/circle_event.py
+++ b/foronoi/events/circle_event.py
@@ -155,9 +155,10 @@ class CircleEvent(Event):
         D = c.yd - a.yd
         E = (b.xd - a.xd) * (a.xd + b.xd) + (b.yd - a.yd) * (a.yd + b.yd)
         F = (c.xd - a.xd) * (a.xd + c.xd) + (c.yd - a.yd) * (a.yd + c.yd)
-        G = 2 * ((b.xd - a.xd) * (c.yd - b.yd) - (b.yd - a.yd) * (c.xd - b.xd))
+        left, right = (b.xd - a.xd) * (c.yd - b.yd), (b.yd - a.yd) * (c.xd - b.xd)
+        G = 2 * (left - right)
 
-        if G == 0:
+        if abs(G) <= (abs(left) + abs(right)) * Decimal("1e-24"):
             # Points are all on one line (collinear), so no circle can be made
             return False
 
-- 
2.43.0


From 50c8d29785b4ad55b81060c2158d7c4dea35077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:10 +0000
Subject: [PATCH 45/51] fix: handle both circle events of an event when they
 coincide

The second one was dropped, so its arc never disappeared.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 00df09f..5bd6f5d 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -488,7 +488,7 @@ class Algorithm(Subject):
             self.event_queue.put(left_event)
             node_b.data.circle_event = left_event
 
-        if right_event is not None and left_event != right_event:
+        if right_event is not None:
             self.event_queue.put(right_event)
             node_e.data.circle_event = right_event
 
-- 
2.43.0


From 676d31f7c3fab5ef5f48ecee3cfb3449354322e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:39 +0000
Subject: [PATCH 46/51] fix: observers missed a message when another one was
 detached while it was delivered

---
 foronoi/observers/subject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 2360fdb..ca56327 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,7 +46,10 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
+        # Observers can be detached while the message is being delivered
+        for observer in list(self._observers):
+            if observer not in self._observers:
+                continue
             observer.update(self._root_sender, message, **kwargs)
         return self
 
-- 
2.43.0


From 26c43b6558ffe32673db7fb4da15e7a214cfa907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:22 +0000
Subject: [PATCH 47/51] fix: circles far away from the origin were imprecise

---
 foronoi/events/circle_event.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/events/circle_event.py b/foronoi/events/circle_event.py
index f8d308d..962744d 100644
--- a/foronoi/events/circle_event.py
+++ b/foronoi/events/circle_event.py
@@ -153,8 +153,8 @@ class CircleEvent(Event):
         B = b.yd - a.yd
         C = c.xd - a.xd
         D = c.yd - a.yd
-        E = (b.xd - a.xd) * (a.xd + b.xd) + (b.yd - a.yd) * (a.yd + b.yd)
-        F = (c.xd - a.xd) * (a.xd + c.xd) + (c.yd - a.yd) * (a.yd + c.yd)
+        E = A * A + B * B
+        F = C * C + D * D
         left, right = (b.xd - a.xd) * (c.yd - b.yd), (b.yd - a.yd) * (c.xd - b.xd)
         G = 2 * (left - right)
 
@@ -166,6 +166,6 @@ class CircleEvent(Event):
         x = (D * E - B * F) / G
         y = (A * F - C * E) / G
 
-        radius = Decimal.sqrt((a.xd - x) ** 2 + (a.yd - y) ** 2)
+        radius = Decimal.sqrt(x ** 2 + y ** 2)
 
-        return x, y, radius
+        return a.xd + x, a.yd + y, radius
-- 
2.43.0


From 25dba38a82cda2777d43535d8f6ff81f17cd1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:22 +0000
Subject: [PATCH 48/51] fix: the heights of breakpoints far away from the
 origin were imprecise

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index afa2fed..2631d1b 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -118,5 +118,5 @@ class Breakpoint:
             return result
 
         # And we put everything back in y
-        result.yd = 1 / u * (x ** 2 - 2 * a * x + a ** 2 + b ** 2 - l ** 2)
+        result.yd = ((x - a) ** 2 + (b - l) * (b + l)) / u
         return result
-- 
2.43.0


From 1d43cb348d04a81a459b9cc6f9cb25bc4c5ac001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 49/51] fix: vertices next to the outline were not ordered by
 where and in which direction they meet it

---
 foronoi/graph/polygon.py | 46 ++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 11e4c66..26e841b 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -43,7 +43,14 @@ class Polygon(Subject):
 
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
-        clockwise = sorted(vertices, key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
+        angles = [(-180 - Algebra.calculate_angle(vertex, self.center)) % 360 for vertex in vertices]
+        first = self._get_position(vertices[angles.index(min(angles))])
+
+        def position(vertex):
+            passed, along = self._get_position(vertex)
+            return (passed, along) < first, passed, along
+
+        clockwise = sorted(vertices, key=position)
 
         # Vertices that share a location are sorted by the direction in which their edges leave the boundary
         groups = []
@@ -54,17 +61,38 @@ class Polygon(Subject):
                 groups.append([vertex])
         if len(groups) > 1 and self._share_location(groups[-1][-1], groups[0][0]):
             groups[0] = groups.pop() + groups[0]
-        return [vertex for group in groups for vertex in sorted(group, key=self._get_direction)]
+        return [vertex for group in groups for vertex in self._sort_by_direction(group)]
+
+    def _get_position(self, vertex):
+        # The side of the polygon that is nearest to the vertex, and where along that side it is
+        positions = []
+        for index, (start, end) in enumerate(zip(self.points, self.points[1:] + self.points[:1])):
+            length = Algebra.distance(start, end)
+            dx, dy = (end.xd - start.xd) / length, (end.yd - start.yd) / length
+            along = (vertex.xd - start.xd) * dx + (vertex.yd - start.yd) * dy
+            along = min(max(along, Decimal(0)), length)
+            x, y = start.xd + along * dx, start.yd + along * dy
+            positions.append((abs(vertex.xd - x) + abs(vertex.yd - y), index, along))
+        return min(positions)[1:]
 
     def _share_location(self, a, b):
         return Algebra.distance(a, b) <= 2 * self._tolerance()
 
-    def _get_direction(self, vertex):
-        direction = -180
-        for edge in vertex.connected_edges[:1]:
-            inward = Algebra.calculate_angle(self.center, vertex)
-            direction = (Algebra.calculate_angle(edge.target, vertex) - inward + 180) % 360 - 180
-        return direction
+    def _sort_by_direction(self, group):
+        lengths = [Algebra.distance(vertex, edge.target) for vertex in group for edge in vertex.connected_edges[:1]]
+        side = self._get_position(group[0])[0]
+        outward = Algebra.calculate_angle(self.points[(side + 1) % len(self.points)], self.points[side]) + 90
+
+        def direction(vertex):
+            for edge in vertex.connected_edges[:1]:
+                # Where the edge is at the same distance as the other ones, as seen from a single location
+                share = min(lengths) / Algebra.distance(vertex, edge.target)
+                point = Coordinate(vertex.xd + (edge.target.xd - vertex.xd) * share,
+                                   vertex.yd + (edge.target.yd - vertex.yd) * share)
+                return (Algebra.calculate_angle(point, group[0]) - outward) % 360
+            return 0
+
+        return sorted(group, key=direction)
 
     @staticmethod
     def _get_closest_point(position, points):
@@ -274,7 +302,7 @@ class Polygon(Subject):
         if start is None or end is None:
             return False
         on_boundary = edge.origin in self.polygon_vertices and edge.twin.origin in self.polygon_vertices
-        return not on_boundary or Algebra.distance(start, end) > self._tolerance()
+        return not on_boundary or not self._share_location(start, end)
 
     def _on_edge(self, point):
         vertices = self.points + self.points[0:1]
-- 
2.43.0


From a517e237c0cb2ed7d8a51503102423785911527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:53 +0000
Subject: [PATCH 50/51] fix: diagrams with a bounding circle can be created, as
 in the example

---
 foronoi/contrib/bounding_circle.py | 101 ++++++++---------------------
 foronoi/graph/polygon.py           |  12 ++--
 2 files changed, 34 insertions(+), 79 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..3f3cb84 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -3,7 +3,9 @@ from decimal import Decimal
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
-from foronoi.graph import Point, Coordinate, Vertex
+from foronoi.graph import Point, Coordinate
+from foronoi.graph.algebra import Algebra
+from foronoi.observers.subject import Subject
 
 DEBUG = False
 
@@ -14,6 +16,8 @@ if DEBUG:
 class BoundingCircle(Polygon):
 
     def __init__(self, x, y, radius):
+        Subject.__init__(self)
+        self.points = []  # A circle has no corners
         self.xd = Decimal(str(x))
         self.yd = Decimal(str(y))
         self.radius = Decimal(str(radius))
@@ -39,80 +43,29 @@ class BoundingCircle(Polygon):
     def inside(self, point):
         return (self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2 < self.radius ** 2
 
-    def finish_edges(self, edges, vertices=None, points=None, event_queue=None):
-        resulting_edges = []
-        for edge in edges:
-            result = True
-            A = edge.get_origin(y=-1000)
-            B = edge.twin.get_origin(y=-1000)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon()\
-                    .show()
-
-            if A is None:
-                if B is None:
-                    continue
-                result = result and self.trim_edge(edge)
-            elif not self.inside(A):
-                result = result and self.trim_edge(edge)
-            if result:
-                resulting_edges.append(edge)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon() \
-                    .show()
-
-            if B is None or not self.inside(B):
-                result = self.trim_edge(edge.twin)
-                if result:
-                    resulting_edges.append(edge.twin)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon() \
-                    .show()
-
-        # Re-order polygon vertices
-        self.polygon_vertices = self._get_ordered_vertices(self.polygon_vertices)
+    def _distance(self, point):
+        return ((self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2).sqrt() - self.radius
 
-        if DEBUG:
-            Visualizer(self.voronoi, 1) \
-                .plot_sites(points) \
-                .plot_vertices(vertices + self.polygon_vertices) \
-                .plot_edges(edges) \
-                .plot_polygon() \
-                .show()
+    def _strictly_inside(self, point):
+        return self._distance(point) < -self._tolerance()
 
-        return resulting_edges, self.polygon_vertices
+    def _along_outline(self, edge):
+        # A straight edge can not run along a circle
+        return False
 
-    def trim_edge(self, edge, twisted=False):
+    def _get_intersection_point(self, orig, end):
+        if not orig or not end:
+            return None
 
-        point = self.cut_line(edge)
+        return self.cut_line(end, orig)
 
-        if point is None:
-            return False
-        # Create vertex
-        v = Vertex(point.x, point.y)
-        v.connected_edges.append(edge)
-        edge.origin = v
-        self.polygon_vertices.append(v)
+    def _get_ordered_vertices(self, vertices):
+        vertices = [vertex for vertex in vertices if vertex.xd is not None]
+        clockwise = sorted(vertices, key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
+        return self._order_shared_locations(clockwise)
 
-        return True
+    def _get_outward_angle(self, vertex):
+        return Algebra.calculate_angle(vertex, self.center)
 
     def get_line(self, A, B):
         if (B.yd - A.yd) == 0:
@@ -162,9 +115,7 @@ class BoundingCircle(Polygon):
 
         return is_on(A, B, C)
 
-    def cut_line(self, edge):
-        A = edge.get_origin(-1000)
-        B = edge.twin.get_origin(-1000)
+    def cut_line(self, A, B):
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
@@ -195,10 +146,10 @@ class BoundingCircle(Polygon):
     def cut_circle(self, a, b, c):
         d = c - a * self.xd - b * self.yd
         a_sq_b_sq = a ** 2 + b ** 2
-        try:
-            big_sqrt = Decimal.sqrt(self.radius ** 2 * a_sq_b_sq - d ** 2).real
-        except ValueError:
+        remainder = self.radius ** 2 * a_sq_b_sq - d ** 2
+        if remainder < 0:
             return None, None
+        big_sqrt = remainder.sqrt()
 
         x1 = self.xd + (a * d + b * big_sqrt) / a_sq_b_sq
         y1 = self.yd + (b * d - a * big_sqrt) / a_sq_b_sq
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 26e841b..69fb119 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -50,8 +50,9 @@ class Polygon(Subject):
             passed, along = self._get_position(vertex)
             return (passed, along) < first, passed, along
 
-        clockwise = sorted(vertices, key=position)
+        return self._order_shared_locations(sorted(vertices, key=position))
 
+    def _order_shared_locations(self, clockwise):
         # Vertices that share a location are sorted by the direction in which their edges leave the boundary
         groups = []
         for vertex in clockwise:
@@ -78,10 +79,13 @@ class Polygon(Subject):
     def _share_location(self, a, b):
         return Algebra.distance(a, b) <= 2 * self._tolerance()
 
+    def _get_outward_angle(self, vertex):
+        side = self._get_position(vertex)[0]
+        return Algebra.calculate_angle(self.points[(side + 1) % len(self.points)], self.points[side]) + 90
+
     def _sort_by_direction(self, group):
         lengths = [Algebra.distance(vertex, edge.target) for vertex in group for edge in vertex.connected_edges[:1]]
-        side = self._get_position(group[0])[0]
-        outward = Algebra.calculate_angle(self.points[(side + 1) % len(self.points)], self.points[side]) + 90
+        outward = self._get_outward_angle(group[0])
 
         def direction(vertex):
             for edge in vertex.connected_edges[:1]:
@@ -121,7 +125,7 @@ class Polygon(Subject):
             The list of all vertices including the
         """
         vertices = self._get_ordered_vertices(self.polygon_vertices)
-        vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
+        vertices = list(vertices) + vertices[:1]  # <- The extra vertex added here, should be removed later
         cell = self._get_closest_point(self.center, points)
 
         # When edges end on the polygon, the tour starts in the cell that lies behind the last one of them
-- 
2.43.0


From 036e166e401c0dfcef759f0c31fff62905f8d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 51/51] fix: nearly vertical edges were not cut by a bounding
 circle

---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 3f3cb84..c0b1391 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -106,7 +106,7 @@ class BoundingCircle(Polygon):
         def is_on(a, b, c):
             "Return true iff point c intersects the line segment from a to b."
             # (or the degenerate case that all 3 points are coincident)
-            return ((within(a.xd, c.xd, b.xd) if a.xd != b.xd else
+            return ((within(a.xd, c.xd, b.xd) if abs(a.xd - b.xd) >= abs(a.yd - b.yd) else
                      within(a.yd, c.yd, b.yd)))
 
         def within(p, q, r):
-- 
2.43.0


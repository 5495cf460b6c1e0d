From 52320d6206dc8e98903ab143f83d59f1eae64f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 01/12] fix: rotate the vector counter-clockwise in
 rug::Integer's cmp_perp_vector_slope

The perpendicular of (x, y) is (-y, x), as in every other scalar type.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From 9c8d8b3c4e5045f5a139b6c84d9cc3e4572249c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 02/12] fix: take two distinct points as the line in
 Point::all_colinear

When the first two points coincided, any list was reported as colinear.
---
 src/data/point.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..7e82446 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -306,9 +306,13 @@ impl<T: PolygonScalar> Point<T> {
     if pts.len() < 3 {
       return true;
     }
+    // A line needs two distinct points.
+    let Some(other) = pts.iter().find(|&pt| *pt != pts[0]) else {
+      return true;
+    };
     pts
       .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
+      .all(|pt| Point::orient(&pts[0], other, pt).is_colinear())
   }
 
   /// Docs?
-- 
2.43.0


From 71943cd4b863ac9363939ada2defbcf3bede67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 03/12] fix: order negative and positive zero as equal in
 TotalOrd for f32 and f64

They are the same coordinate; telling them apart let repeated points through
duplicate checks and into convex hulls.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fa9943c..7b06c61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,8 @@ macro_rules! floating_precision {
     $(
       impl TotalOrd for $ty {
         fn total_cmp(&self, other: &Self) -> Ordering {
-          <$ty>::total_cmp(self, other)
+          // Negative zero and zero are the same coordinate. Adding zero unifies them.
+          <$ty>::total_cmp(&(self + 0.0), &(other + 0.0))
         }
       }
 
-- 
2.43.0


From eba944de7e91ce879bafe855eae1ea6dd6301906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 04/12] fix: don't report an overlap with a single-point
 segment off the other segment

A degenerate inclusive segment was taken to be colinear with everything, so it
overlapped segments that don't contain it, in one argument order only.
---
 src/data/line_segment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..9569dcd 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,12 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    // A segment of a single point doesn't determine a line, so look from both sides.
+    if l1_to_b1 == CoLinear
+      && l1_to_b2 == CoLinear
+      && l2_to_a1 == CoLinear
+      && l2_to_a2 == CoLinear
+    {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From d30fa111bab35f70677a144d93faea0f5395929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 05/12] fix: locate points on a diagonal of a convex polygon
 inside it

---
 src/data/polygon/convex.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..fa7c383 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,21 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    match triangle.locate(pt) {
+      // The sides of the triangle which share p0 may be diagonals of the polygon, and
+      // points on a diagonal are inside rather than on the boundary.
+      PointLocation::OnBoundary => {
+        let on_edge = Point::orient(p1, p2, pt).is_colinear()
+          || (lower == 1 && Point::orient(p0, p1, pt).is_colinear())
+          || (upper == vertices.len() - 1 && Point::orient(p2, p0, pt).is_colinear());
+        if on_edge {
+          PointLocation::OnBoundary
+        } else {
+          PointLocation::Inside
+        }
+      }
+      location => location,
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From 38388cc5b4800cc12c12f1c681748e706ad03f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 06/12] fix: stop gift wrapping at any copy of the leftmost
 point

---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..89f874c 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare points rather than indices since the leftmost point may occur several times.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From 8c8c1c0a8ba0c34e9903624945b8290678c0614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 07/12] fix: feed Melkman's hull algorithm the vertices in
 boundary order

---
 src/algorithms/convex_hull/melkman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..5f13a1f 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,8 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  // Melkman's algorithm needs the vertices in boundary order.
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From 16ff9629b355e36513bf3aa96a20742800563290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 08/12] fix: keep points on the line between the extremes off
 the left chain when it is the right chain

---
 src/algorithms/polygonization/monotone.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..7225d4d 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -77,9 +77,16 @@ where
 
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
+  // Points on the line from the min point to the max point go to the left side unless there are
+  // no points on the right side. In that case, the line is the right side and they are part of it.
+  let right_side_is_empty = !points
+    .iter()
+    .any(|pt| Orientation::new(&min_point, &max_point, pt).is_cw());
+
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if right_side_is_empty => polygon_points.push_front(curr),
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0


From 84f226ecf88bf093001a18802c4f49e2d860d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 09/12] fix: shoot one visibility ray per direction, towards
 the nearest vertex

Several vertices in one direction from the viewpoint made the rays repeat points and the
construction of the visibility polygon panic.
---
 src/algorithms/visibility/naive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..1ee23c8 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,14 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  // The rays towards vertices at the same angle are the same ray. Shoot it once, towards the
+  // nearest of them.
+  vertices.dedup_by(|a, b| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From 97bf46908fed2f9933fe6de0226d57cf08a21ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 10/12] fix: report no remaining cursors once a CursorIter is
 exhausted

---
 src/data/polygon/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..254f169 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
-- 
2.43.0


From 0190e36831306bd5373cc5f282080917a7d5e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 11/12] fix: move backwards in CursorIter::next_back

---
 src/data/polygon/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 254f169..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -119,7 +119,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From 8975e4ee34910bf63a2de40a95ed1f5af6a8fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 12/12] fix: compare an ear with the vertices beyond its
 neighbours only

In a triangle the range from the next-but-one vertex up to the previous
one wrapped around to the whole polygon, so no vertex of a triangle was
an ear.
---
 src/data/polygon.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..47123cd 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -3,7 +3,6 @@ use num_traits::*;
 use ordered_float::OrderedFloat;
 use std::cmp::Ordering;
 use std::iter::Sum;
-use std::ops::Bound::*;
 use std::ops::*;
 
 use crate::data::{
@@ -718,10 +717,15 @@ impl<'a, T> Cursor<'a, T> {
     let trig =
       TriangleView::new_unchecked([self.prev().point(), self.point(), self.next().point()]);
     if trig.orientation() == Orientation::CounterClockWise {
-      for pt in self.next().next().to(Excluded(self.prev())) {
-        if trig.locate(pt.point()) != PointLocation::Outside {
+      // A range from a vertex up to itself covers the whole polygon so the vertices are walked by
+      // hand: in a triangle, no vertex lies between the two neighbours.
+      let end = self.prev();
+      let mut vertex = self.next().next();
+      while vertex != end {
+        if trig.locate(vertex.point()) != PointLocation::Outside {
           return false;
         }
+        vertex.move_next();
       }
       true
     } else {
-- 
2.43.0


From b236655f3e215d0670f86712e37d3f166f0981a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 01/50] fix: deleting a repeated value from the AVL tree no
 longer panics or removes another element

---
 src/data_structure/avl_tree.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..3ad99aa 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,8 +89,9 @@ where
                         temp = temp_left.unwrap();
                     }
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let successor = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete_min(right);
+                    node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
@@ -100,6 +101,17 @@ where
         }
     }
 
+    fn delete_min(node: OptionNodeRc<T>) -> OptionNodeRc<T> {
+        let node = node?;
+        let left = node.borrow().left.clone();
+        if left.is_none() {
+            return node.borrow().right.clone();
+        }
+        node.borrow_mut().left = Self::delete_min(left);
+        Self::update_height(Some(node.clone()));
+        Self::rotate(Some(node))
+    }
+
     fn update_height(node: OptionNodeRc<T>) {
         if let Some(node) = node {
             let left = node.borrow().left.clone();
-- 
2.43.0


From 54bbcbd1e5ba739ddc8bfa1582708db3e3c1220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 02/50] fix: a zero-length segment contains only its own point;
 both segment ends get the same tolerance

---
 src/algorithm/location/point_2_line_segment_2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..2c8d846 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -19,6 +19,12 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
 ) -> Point2Segment2Location {
     let source = segment_2.source();
     let target = segment_2.target();
+    if source == target {
+        if *point_2 == source {
+            return Point2Segment2Location::On;
+        }
+        return Point2Segment2Location::Collinear;
+    }
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
     let area = vec_ab.cross(&vec_ac);
@@ -29,7 +35,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 5f6b6f59725957b2763e893f12e4cee9d2836854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 03/50] fix: collinear disjoint and degenerate segments are not
 reported as intersecting

---
 .../intersection/line_segment_2_line_segment_2.rs      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..b8522d1 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,8 +13,16 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
+    if ab.cross(&cd).equals(T::zero()) {
+        // parallel, or one of them is a point: they can only meet at an end point
+        return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+            || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
+    }
     let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    let on_one_side = |p: T, q: T| (p > eps && q > eps) || (p < -eps && q < -eps);
+    !on_one_side(ab.cross(&ac), ab.cross(&ad)) && !on_one_side(cd.cross(&ca), cd.cross(&cb))
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From f8ae0f40270fe66e4ac6308fd2f86db7441111cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 04/50] fix: the sweep looks past repeated segments for the
 upper neighbour

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..c376bce 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -489,7 +489,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment: &StatusNodeSegment<T>,
         mid_order_traversal: &Vec<StatusNode<T>>,
     ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
+        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {
             let mut status_node_segment = status_node.segment.clone();
             match status_node_segment {
                 StatusNodeSegment::LineSegment2(line_segment) => match segment {
-- 
2.43.0


From e6400d3f6f34c7a54d07936da34e908b55d3a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 05/50] fix: the intersected test accepts an arc before a
 circle

---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 6acb36c4dcaf756359bb83b742617838ad3fa2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 06/50] fix: a segment with one end inside a circle always
 intersects it

---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..2fe9fcc 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -22,8 +22,8 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         && target_relation == Point2Circle2Location::Inside
     {
         return false;
-    } else if source_relation == Point2Circle2Location::On
-        || target_relation == Point2Circle2Location::On
+    } else if source_relation != Point2Circle2Location::Outside
+        || target_relation != Point2Circle2Location::Outside
     {
         return true;
     } else {
-- 
2.43.0


From 7b17b9e9a4a1ca6b5e2952f26f458774e2c662a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 07/50] fix: a segment meets a ray where it crosses it, not at
 its own midpoint

---
 .../intersection/line_segment_2_ray_2.rs      | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..716ec0d 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -13,12 +13,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -58,24 +53,15 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                         return result;
                     }
                     _ => {
-                        let v1 = target - source;
-                        let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
-                            let point =
-                                ray_segment.origin().get_vector() + ray_segment.direction() * t;
-                            result.push(Point2::new(point.x(), point.y()));
+                        let v1 = source - ray_segment.origin();
+                        let v2 = target - ray_segment.origin();
+                        let cross1 = ray_segment.direction().cross(&v1);
+                        let cross2 = ray_segment.direction().cross(&v2);
+                        let t = cross1 / (cross1 - cross2);
+                        let point = source.get_vector() + (target - source) * t;
+                        let point = Point2::new(point.x(), point.y());
+                        if is_point_2_on_ray_2(&point, ray_segment) {
+                            result.push(point);
                         }
                         return result;
                     }
-- 
2.43.0


From d67f4f38d1b437e3d0be66ce86573a856258b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 08/50] fix: a polygon whose vertex touches another edge is not
 simple

---
 src/kernel/polygon_2.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..8fe49f9 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,7 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::{
+    intersection::sweep_segment_2_intersection::SweepSegment2Intersection,
+    location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+};
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -51,10 +54,17 @@ impl<T: NumberType> Polygon2<T> {
         }
         let intersections = sweep.intersection();
         let vertices_size = self.vertices.len();
-        if vertices_size == intersections.len() {
-            return true;
+        if vertices_size != intersections.len() {
+            return false;
         }
-        return false;
+        // a vertex touching an edge other than its own two adds no new point
+        self.vertices.iter().all(|vertex| {
+            let touching = edges
+                .iter()
+                .filter(|edge| is_point_2_on_line_segment_2(vertex, *edge))
+                .count();
+            touching == 2
+        })
     }
 
     pub fn is_convex(&self) -> bool {
-- 
2.43.0


From 7bcab5c7f6f4a9928d05c63d0f3d1028ac79a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 09/50] fix: a point is located correctly in a polygon that is
 not convex

---
 src/algorithm/location/point_2_polygon_2.rs | 36 +++++++--------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..034c226 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,4 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +40,22 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
+    // parity of the edges crossed by the horizontal ray towards positive x
+    let mut inside = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
+        let upward = edge.source().y() <= point.y() && edge.target().y() > point.y();
+        let downward = edge.target().y() <= point.y() && edge.source().y() > point.y();
         match edge_location {
             Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
+            Point2Segment2Location::Left if upward => inside = !inside,
+            Point2Segment2Location::Right if downward => inside = !inside,
             _ => {}
         }
     }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
-        }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
     }
 }
-- 
2.43.0


From 292d71a586e318fda2d24b5d096f825b0cabf49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 10/50] fix: the convex hull of one point, or of one point
 repeated, is that point

---
 src/algorithm/convex_hull/convex_hull_2.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..fee1861 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,9 +17,14 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        let mut points = self.points.clone();
+        points.dedup();
+        if points.len() < 2 {
+            return points;
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
-        for p in self.points.iter() {
+        for p in points.iter() {
             while lower.len() >= 2
                 && Self::cross(&lower[lower.len() - 2], &lower[lower.len() - 1], &p) <= T::zero()
             {
@@ -27,7 +32,7 @@ impl<T: NumberType> ConvexHull2<T> {
             }
             lower.push(p.clone());
         }
-        for p in self.points.iter().rev() {
+        for p in points.iter().rev() {
             while upper.len() >= 2
                 && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) <= T::zero()
             {
-- 
2.43.0


From 91e2881ec3759ea8553a6beeebd5c73a405e6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 11/50] fix: projecting on a line uses the slope of its normal

---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From f9e3f300cd7fa6a2a233f25bc16573f3b6466c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 12/50] fix: deleting the only node empties the circular list

---
 src/data_structure/circular_doubly_linked_list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..2f45b9d 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,12 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                    node.borrow_mut().next = None;
+                    node.borrow_mut().prev = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From 8a3a940179c9f88fed23c7b626c7239be9f6531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 13/50] fix: a dropped circular list releases its nodes

---
 src/data_structure/circular_doubly_linked_list.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 2f45b9d..3c457c7 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -110,3 +110,15 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
         self.length
     }
 }
+
+impl<T: Clone + Copy> Drop for CircularDoubleLinkedList<T> {
+    fn drop(&mut self) {
+        // the ring keeps itself alive: take it apart
+        let mut node = self.head.take();
+        self.tail = None;
+        while let Some(current) = node {
+            current.borrow_mut().prev = None;
+            node = current.borrow_mut().next.take();
+        }
+    }
+}
-- 
2.43.0


From 2546d97c5b9ad1f998cc7cf28111bcee033ff8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 14/50] fix: triangulation no longer prints to standard output

---
 src/algorithm/triangulation/earcut_2.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..d2a2ecb 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -64,7 +64,6 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
         vertices.delete(Some(ear));
-        println!("{:?}", ear_index);
         if vertices.len() > 3 {
             let (prev_vertex_type, index) = get_vertex_type(&ears, &reflexes, prev.clone());
             match prev_vertex_type {
-- 
2.43.0


From fdc2d8f160d59e8d4b7d48be3239ea913dd2bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 15/50] fix: a vertex that stops being an ear is no longer
 clipped

---
 src/algorithm/triangulation/earcut_2.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index d2a2ecb..ea2fec7 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -217,7 +217,16 @@ fn get_vertex_type<T: NumberType>(
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
                     Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                        let index = match cur.borrow().data.vertex_type {
+                            VertexType::Reflex => reflexes
+                                .iter()
+                                .position(|x| x.borrow().data.point == cur.borrow().data.point),
+                            VertexType::Ear => ears
+                                .iter()
+                                .position(|x| x.borrow().data.point == cur.borrow().data.point),
+                            VertexType::Convex => None,
+                        };
+                        return (VertexType::Convex, index);
                     }
                     _ => {
                         continue;
-- 
2.43.0


From cc54ae2338344d768c4dfe736df5268e7fd62386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 16/50] fix: a vertex is not an ear when another vertex lies on
 its diagonal

---
 src/algorithm/triangulation/earcut_2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index ea2fec7..69ad96b 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -210,13 +210,16 @@ fn get_vertex_type<T: NumberType>(
         Orientation::CounterClockwise => {
             for i in 0..reflexes.len() {
                 let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+                if reflex.borrow().data.point == cur.borrow().data.point
+                    || reflex.borrow().data.point == prev.borrow().data.point
+                    || reflex.borrow().data.point == next.borrow().data.point
+                {
                     continue;
                 }
                 let point = reflex.borrow().data.point;
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         let index = match cur.borrow().data.vertex_type {
                             VertexType::Reflex => reflexes
                                 .iter()
@@ -270,7 +273,7 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         return VertexType::Convex;
                     }
                     _ => {
-- 
2.43.0


From 19c1f98ae528ff5f0cb85fa1a15986cfb468b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 17/50] fix: clockwise polygons are triangulated

---
 src/algorithm/triangulation/earcut_2.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index 69ad96b..ad2663a 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -33,7 +33,11 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
     let mut vertices = CircularDoubleLinkedList::new();
     let mut ears = Vec::new();
     let mut reflexes = Vec::new();
-    let polygon_vertices = polygon.vertices();
+    let mut polygon_vertices = polygon.vertices();
+    let clockwise = polygon.area() < T::zero();
+    if clockwise {
+        polygon_vertices.reverse();
+    }
     let mut _vertex = vertices.tail();
     for i in 0..polygon_vertices.len() {
         let vertex_type = init_vertex_type(&polygon_vertices, i);
@@ -181,6 +185,15 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
     }
+    if clockwise {
+        let last = polygon_vertices.len() - 1;
+        for triangle in triangles.iter_mut() {
+            for index in triangle.iter_mut() {
+                *index = last - *index;
+            }
+            triangle.sort();
+        }
+    }
     triangles
 }
 
-- 
2.43.0


From ef201b6f31c62ded1f75e16fa50b9111b7e8d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 18/50] fix: an arc in the upper half of a later turn is a top
 arc

---
 src/kernel/arc_segment_2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..71715e8 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -34,7 +34,14 @@ impl<T: NumberType> ArcSegment2<T> {
 
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
-        self.source_radian < pi && (self.target_radian.equals(pi) || self.target_radian < pi)
+        let two_pi = pi * T::from_f64(2.0);
+        let mut source_radian = self.source_radian;
+        let mut target_radian = self.target_radian;
+        while source_radian.equals(two_pi) || source_radian > two_pi {
+            source_radian = source_radian - two_pi;
+            target_radian = target_radian - two_pi;
+        }
+        source_radian < pi && (target_radian.equals(pi) || target_radian < pi)
     }
 
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
-- 
2.43.0


From 00cbaf53bddaf5764c9868fa7375c8e4faa66a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 19/50] fix: splitting an arc into monotone arcs keeps exactly
 the arc

---
 src/kernel/arc_segment_2.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index 71715e8..ff3af98 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -47,20 +47,10 @@ impl<T: NumberType> ArcSegment2<T> {
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = Vec::new();
+        let mut radians = vec![self.source_radian.clone()];
         let mut end_pi = T::zero();
-        let mut min_flag = false;
         while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
+            if !end_pi.equals(self.source_radian) && end_pi > self.source_radian {
                 radians.push(end_pi.clone());
             }
             end_pi = end_pi + pi;
-- 
2.43.0


From fe601e57366fd13ddfa097e9c0d8b15b20ccfa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 20/50] fix: the sweep orders arcs with vertical or equal
 tangents at an event

---
 .../sweep_segment_2_intersection.rs           | 45 ++++++++++++++++---
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index c376bce..3aac891 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -579,6 +579,26 @@ fn calculate_tangent_slope<T: NumberType>(center: &Point2<T>, point: &Point2<T>)
     Some(-x / y)
 }
 
+/// Where a segment with a vertical direction goes to the right of the event point: a lower arc
+/// leaves downwards, an upper arc upwards, and a vertical line segment counts as above them all.
+fn vertical_rank<T: NumberType>(segment: &impl Segment2<T>) -> i32 {
+    match segment.segment_type() {
+        Segment2Type::LineSegment2 => 2,
+        _ => {
+            let arc_segment = ArcSegment2::new(
+                CircleSegment2::new(segment.center(), segment.radius()),
+                segment.source_radian(),
+                segment.target_radian(),
+            );
+            if arc_segment.is_top() {
+                1
+            } else {
+                -1
+            }
+        }
+    }
+}
+
 fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> T {
     match segment.segment_type() {
         Segment2Type::LineSegment2 => {
@@ -594,8 +614,11 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
         _ => {
             let radius = segment.radius();
             let center = segment.center();
+            if is_point_2_on_arc_segment_2(point, segment) {
+                return point.y();
+            }
             let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
+            let y = if y < T::zero() { T::zero() } else { y.sqrt() };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
@@ -636,7 +659,7 @@ fn calculate_mid_value<T: NumberType>(
 ) -> (T, T) {
     let target_a = get_target_of_segment(segment_a);
     let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
+    let target = if target_a > target_b {
         target_a
     } else {
         target_b
@@ -674,11 +697,17 @@ fn compare_segments<T: NumberType>(
     if segment_a_value.equals(segment_b_value) {
         let segment_a_slope = match segment_a.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_a.center(),
+                &Point2::new(event_point.x(), segment_a_value),
+            ),
         };
         let segment_b_slope = match segment_b.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_b.center(),
+                &Point2::new(event_point.x(), segment_b_value),
+            ),
         };
         match segment_a_slope {
             Some(a_slope) => match segment_b_slope {
@@ -691,11 +720,13 @@ fn compare_segments<T: NumberType>(
                         std::cmp::Ordering::Greater
                     }
                 }
-                None => std::cmp::Ordering::Less,
+                None => 0.cmp(&vertical_rank(segment_b)),
             },
             None => match segment_b_slope {
-                Some(_) => std::cmp::Ordering::Greater,
-                None => compare_segments_same_slope(segment_a, segment_b, event_point),
+                Some(_) => vertical_rank(segment_a).cmp(&0),
+                None => vertical_rank(segment_a)
+                    .cmp(&vertical_rank(segment_b))
+                    .then_with(|| compare_segments_same_slope(segment_a, segment_b, event_point)),
             },
         }
     } else if segment_a_value < segment_b_value {
-- 
2.43.0


From 81579d650a2f3371715d7ec87ee69f3ca9b6fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 21/50] fix: curves that meet at an event of the sweep are
 tested for further meetings

---
 .../sweep_segment_2_intersection.rs           | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 3aac891..e014e5d 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -280,9 +280,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 None => {}
             }
         } else {
-            let segment_left = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .0;
+            let segments = self.get_sorted_u_c(&source_is_p, &contain_p, event_point);
+            // arcs that meet here may meet once more further on
+            for pair in segments.windows(2) {
+                self.find_intersection_points(&pair[0], &pair[1], event_point);
+            }
+            let segment_left = segments[0].clone();
             let segment_left_left = self.get_left_of_segment(&segment_left, &mid_order_traversal);
             match segment_left_left {
                 Some(segment) => {
@@ -290,9 +293,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
                 _ => {}
             }
-            let segment_right = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .1;
+            let segment_right = segments[segments.len() - 1].clone();
             let segment_right_right =
                 self.get_right_of_segment(&segment_right, &mid_order_traversal);
             match segment_right_right {
@@ -405,12 +406,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
     }
 
-    fn get_left_right_in_u_c(
+    fn get_sorted_u_c(
         &self,
         source_is_p: &Vec<StatusNodeSegment<T>>,
         contain_p: &Vec<StatusNodeSegment<T>>,
         event_point: &Point2<T>,
-    ) -> (StatusNodeSegment<T>, StatusNodeSegment<T>) {
+    ) -> Vec<StatusNodeSegment<T>> {
         let mut segments = Vec::new();
         for segment in source_is_p {
             segments.push(segment.clone());
@@ -436,9 +437,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
             },
         });
-        let left = segments[0].clone();
-        let right = segments[segments.len() - 1].clone();
-        (left, right)
+        segments
     }
 
     fn get_left_of_segment(
@@ -552,9 +551,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             },
         };
         for point in points {
-            if point.x() > event_point.x()
-                || (point.x().equals(event_point.x()) && point.y() > event_point.y())
-            {
+            if point < *event_point {
                 self.event_queue.push(point);
             }
         }
-- 
2.43.0


From c18da05ebaac8f1e926eebd7d57f11c3f5fbc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 22/50] fix: the sweep removes segments from its status by
 identity

---
 .../sweep_segment_2_intersection.rs           | 53 +++++--------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index e014e5d..ba501e5 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -180,53 +180,24 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
-        for segment in &target_is_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
-        for segment in &contain_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
         for status_node in old_status_nodes {
-            reinserted_segments.push(status_node.segment.clone());
+            // the nodes carry values of different events: remove segments by identity
+            let removed = target_is_p.iter().chain(&contain_p).any(|segment| {
+                status_node
+                    == StatusNode {
+                        value: status_node.value,
+                        point: status_node.point,
+                        segment: segment.clone(),
+                    }
+            });
+            if !removed {
+                reinserted_segments.push(status_node.segment.clone());
+            }
         }
         for segment in &source_is_p {
             reinserted_segments.push(segment.clone());
-- 
2.43.0


From e74770df795c6bddc035c9839effcbb815b14575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 23/50] fix: the sides of a circle have the height of its
 centre in the sweep

---
 .../intersection/sweep_segment_2_intersection.rs         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index ba501e5..7149993 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -585,8 +585,13 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             if is_point_2_on_arc_segment_2(point, segment) {
                 return point.y();
             }
-            let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = if y < T::zero() { T::zero() } else { y.sqrt() };
+            let x = (point.x() - center.x()).abs();
+            // at the sides of the circle the root would turn rounding into a visible height
+            let y = if x.equals(radius) || x > radius {
+                T::zero()
+            } else {
+                (radius * radius - x * x).sqrt()
+            };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
-- 
2.43.0


From 87f0181fe9935aa5357a536dbafc5a5015a27ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 24/50] Make the containers public under --cfg rcgal_verif

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..4b57a3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,10 @@
+#![allow(unexpected_cfgs)]
+
 pub mod algorithm;
+#[cfg(not(rcgal_verif))]
 mod data_structure;
+#[cfg(rcgal_verif)]
+pub mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
-- 
2.43.0


From 291179c8510731a5349751ab17d17e15d71c8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 25/50] fix: an edge can be removed from a vertex it starts or
 ends at

---
 src/kernel/vertex_2.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index 3897545..b85291f 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -1,6 +1,6 @@
 use std::{cell::RefCell, rc::Rc};
 
-use super::{edge_2::Edge2, number_type::NumberType, point_2::Point2};
+use super::{edge_2::Edge2, number_type::NumberType, point_2::Point2, util_enum::Edge2Type};
 
 #[derive(Debug, Clone)]
 pub struct Vertex2<T: NumberType> {
@@ -35,7 +35,30 @@ impl<T: NumberType> Vertex2<T> {
     }
 
     pub fn remove_edge(&mut self, edge: Rc<RefCell<Edge2<T>>>) {
-        self.edges.retain(|e| e != &edge);
+        let this: *const Self = self;
+        let point = self.to_point();
+        // An end of an edge may be this very vertex, which is mutably borrowed during the call.
+        let location = |vertex: &Rc<RefCell<Self>>| {
+            if std::ptr::eq(vertex.as_ptr(), this) {
+                point
+            } else {
+                vertex.borrow().to_point()
+            }
+        };
+        let is_same = |a: &Rc<RefCell<Edge2<T>>>, b: &Rc<RefCell<Edge2<T>>>| {
+            if Rc::ptr_eq(a, b) {
+                return true;
+            }
+            let (a, b) = (a.borrow(), b.borrow());
+            match (a.edge_type(), b.edge_type()) {
+                (Edge2Type::Segment, Edge2Type::Segment) => {
+                    location(&a.source()) == location(&b.source())
+                        && location(&a.target()) == location(&b.target())
+                }
+                _ => *a == *b,
+            }
+        };
+        self.edges.retain(|e| !is_same(e, &edge));
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-- 
2.43.0


From a616ac8f22a4dfd4981665139514cf18aa63bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 26/50] fix: the sweep handles each event point once

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 7149993..baad77b 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -118,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +138,10 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            if self.last_event_point == Some(event_point) {
+                // the same point may have been found, and queued, several times
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
-- 
2.43.0


From 2a546e3e25fe4cdf51dd01d6672095369ed398e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 27/50] fix: the position of a point relative to a segment has
 a tolerance that is a distance

---
 src/algorithm/location/point_2_line_segment_2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index 2c8d846..716910b 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -27,15 +27,17 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     }
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
+    // the tolerance is a distance, these are distances times the length of the segment
+    let tolerance = T::default_eps() * vec_ab.length();
     let area = vec_ab.cross(&vec_ac);
-    if area > T::default_eps() {
+    if area > tolerance {
         Point2Segment2Location::Left
-    } else if area < -T::default_eps() {
+    } else if area < -tolerance {
         Point2Segment2Location::Right
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + tolerance && dot_ab_ac >= -tolerance {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 1f058bf87221b379257c5b125ad96623d9b07230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 28/50] fix: the segment crossing test has a tolerance that is
 a distance

---
 .../intersection/line_segment_2_line_segment_2.rs     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index b8522d1..f38c2f5 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,16 +13,19 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
-    if ab.cross(&cd).equals(T::zero()) {
+    let eps = T::default_eps();
+    // the tolerance is a distance (or the sine of an angle), products with the lengths are compared
+    if ab.cross(&cd).abs() <= eps * ab.length() * cd.length() {
         // parallel, or one of them is a point: they can only meet at an end point
         return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
             || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
             || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
             || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
     }
-    let eps = T::default_eps();
-    let on_one_side = |p: T, q: T| (p > eps && q > eps) || (p < -eps && q < -eps);
-    !on_one_side(ab.cross(&ac), ab.cross(&ad)) && !on_one_side(cd.cross(&ca), cd.cross(&cb))
+    let on_one_side =
+        |p: T, q: T, tolerance: T| (p > tolerance && q > tolerance) || (p < -tolerance && q < -tolerance);
+    !on_one_side(ab.cross(&ac), ab.cross(&ad), eps * ab.length())
+        && !on_one_side(cd.cross(&ca), cd.cross(&cb), eps * cd.length())
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From bd7480cb822b41d4a5b40c42a78902f317a26328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 29/50] fix: lines are parallel by the angle between them

---
 src/algorithm/intersection/line_2_line_2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_2_line_2.rs b/src/algorithm/intersection/line_2_line_2.rs
index f653ca9..d351307 100644
--- a/src/algorithm/intersection/line_2_line_2.rs
+++ b/src/algorithm/intersection/line_2_line_2.rs
@@ -16,7 +16,9 @@ pub fn line_2_line_2_intersection<T: NumberType>(
     let b_2 = line_b.b();
     let c_2 = line_b.c();
     let det = a_1 * b_2 - a_2 * b_1;
-    if det.equals(T::zero()) {
+    // the sine of the angle between the lines, whatever the scale of their coefficients
+    let norm = ((a_1 * a_1 + b_1 * b_1) * (a_2 * a_2 + b_2 * b_2)).sqrt();
+    if det.abs() <= T::default_eps() * norm {
         return None;
     }
     let x = (-b_2 * c_1 + b_1 * c_2) / det;
-- 
2.43.0


From d2cb003ebb531ef9c93a0f51c91bdb6a0fc223c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 30/50] fix: the line of a ray is built from its direction

---
 src/algorithm/intersection/line_2_ray_2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/intersection/line_2_ray_2.rs b/src/algorithm/intersection/line_2_ray_2.rs
index f1cbfe0..a47f4b7 100644
--- a/src/algorithm/intersection/line_2_ray_2.rs
+++ b/src/algorithm/intersection/line_2_ray_2.rs
@@ -15,9 +15,11 @@ pub fn line_2_ray_2_intersection<T: NumberType>(
 ) -> Option<Point2<T>> {
     let origin = ray.origin();
     let direction = ray.direction();
-    let target = direction + origin.get_vector();
-    let target = Point2::new(target.x(), target.y());
-    let line_ray = Line2::from_points(&origin, &target);
+    let line_ray = Line2::new(
+        direction.y(),
+        -direction.x(),
+        direction.x() * origin.y() - direction.y() * origin.x(),
+    );
     let intersection = line_2_line_2_intersection(&line, &line_ray);
     match intersection {
         Some(point) => match locate_point_2_ray_2(&point, ray) {
-- 
2.43.0


From d8d33834ba70b8e10fdca0be8854f63e8a32e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 31/50] fix: projection on a segment has a tolerance that is a
 distance

---
 src/algorithm/projection/point_2_line_segment_2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..c316319 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -8,7 +8,8 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     let w = *point - segment.source();
     let c1 = w.dot(&v);
     let c2 = v.dot(&v);
-    let eps = T::default_eps();
+    // the tolerance is a distance, c1 and c2 are distances times the length of the segment
+    let eps = T::default_eps() * v.length();
     if c1 < -eps || c1 > c2 + eps {
         return None;
     }
-- 
2.43.0


From 0a9be74192fb905c3a1ee1feb7a6e5ce69915a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 32/50] fix: turns have a tolerance that is a distance

---
 src/kernel/point_2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/point_2.rs b/src/kernel/point_2.rs
index b2faf58..ff106f6 100644
--- a/src/kernel/point_2.rs
+++ b/src/kernel/point_2.rs
@@ -56,7 +56,8 @@ impl<T: NumberType> Point2<T> {
         let pq = Vector2::new(q.x - p.x, q.y - p.y);
         let qr = Vector2::new(r.x - q.x, r.y - q.y);
         let cross = pq.cross(&qr);
-        if cross.equals(T::zero()) {
+        // the tolerance is a distance, cross is the distance of r from pq times the length of pq
+        if cross.abs() <= T::default_eps() * pq.length() {
             return TurnDirection::Collinear;
         } else if cross > T::zero() {
             return TurnDirection::Left;
-- 
2.43.0


From 1c86cedf3c51e6895e80c45586dad1b0f1396b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 33/50] fix: the position of a point relative to a line has a
 tolerance that is a distance

---
 src/algorithm/location/point_2_line_2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_2.rs b/src/algorithm/location/point_2_line_2.rs
index feaa412..82e11dc 100644
--- a/src/algorithm/location/point_2_line_2.rs
+++ b/src/algorithm/location/point_2_line_2.rs
@@ -16,7 +16,8 @@ pub fn locate_point_2_line_2<T: NumberType>(
     let x = point.x();
     let y = point.y();
     let result = a * x + b * y + c;
-    if result.equals(T::zero()) {
+    // the tolerance is a distance, result is the distance times the length of the normal
+    if result.abs() <= T::default_eps() * (a * a + b * b).sqrt() {
         Point2Line2Location::On
     } else {
         Point2Line2Location::NotOn
-- 
2.43.0


From d257e5a4f8387ecf7ed17d0523bd44951b9791cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 34/50] fix: equality of lines does not depend on the scale of
 their coefficients

---
 src/kernel/line_2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/line_2.rs b/src/kernel/line_2.rs
index 215e9bf..e0e3518 100644
--- a/src/kernel/line_2.rs
+++ b/src/kernel/line_2.rs
@@ -54,7 +54,9 @@ impl<T: NumberType> PartialEq for Line2<T> {
         let det = self.a * other.b - self.b * other.a;
         let det_c = self.c * other.b - self.b * other.c;
         let det_a = self.a * other.c - self.c * other.a;
-        let eps = T::default_eps();
+        // whatever the scale of the coefficients
+        let norm = ((self.a * self.a + self.b * self.b) * (other.a * other.a + other.b * other.b)).sqrt();
+        let eps = T::default_eps() * norm;
         return det.abs() < eps && det_c.abs() < eps && det_a.abs() < eps;
     }
 }
-- 
2.43.0


From caaffbcd347f5c7525c0d6ca62ce1aa353ac23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:44 +0000
Subject: [PATCH 35/50] fix: an arc with large angles is normalised in few
 steps

---
 src/kernel/arc_segment_2.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index ff3af98..9c2a191 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -12,15 +12,8 @@ pub struct ArcSegment2<T: NumberType> {
 
 impl<T: NumberType> ArcSegment2<T> {
     pub fn new(support: CircleSegment2<T>, source_radian: T, target_radian: T) -> Self {
-        let mut source_radian = source_radian;
-        let mut target_radian = target_radian;
-        let four_pi = T::pi() * T::from_f64(4.0);
-        while !source_radian.equals(four_pi) && source_radian > four_pi {
-            source_radian = source_radian - four_pi;
-        }
-        while !target_radian.equals(four_pi) && target_radian > four_pi {
-            target_radian = target_radian - four_pi;
-        }
+        let mut source_radian = Self::reduce(source_radian);
+        let mut target_radian = Self::reduce(target_radian);
         if source_radian.equals(target_radian) {
             source_radian = T::zero();
             target_radian = T::pi() * T::from_f64(2.0);
@@ -32,6 +25,25 @@ impl<T: NumberType> ArcSegment2<T> {
         }
     }
 
+    /// Takes multiples of 4 pi from the radian until it is 4 pi at most.
+    fn reduce(radian: T) -> T {
+        let exceeds = |p: T, q: T| !p.equals(q) && p > q;
+        let four_pi = T::pi() * T::from_f64(4.0);
+        let mut radian = radian;
+        // the multiples double and halve again, so that a large radian takes few steps
+        let mut turns = four_pi;
+        while exceeds(radian, turns + turns) {
+            turns = turns + turns;
+        }
+        while exceeds(radian, four_pi) && !exceeds(four_pi, turns) {
+            if exceeds(radian, turns) {
+                radian = radian - turns;
+            }
+            turns = turns * T::from_f64(0.5);
+        }
+        radian
+    }
+
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
         let two_pi = pi * T::from_f64(2.0);
-- 
2.43.0


From 160d7aaa5b5d37b6e923baf69cd668f1879c4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 36/50] fix: an arc with its end angle below its start one is
 split as it runs

---
 src/kernel/arc_segment_2.rs | 39 +++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index 9c2a191..2898416 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -44,11 +44,37 @@ impl<T: NumberType> ArcSegment2<T> {
         radian
     }
 
+    /// The radians with `0 <= source < target`, the target in the turn after the source's when the
+    /// arc passes through radian 0.
+    fn unwound(&self) -> (T, T) {
+        let below = |p: T, q: T| !p.equals(q) && p < q;
+        let two_pi = T::pi() * T::from_f64(2.0);
+        let first_turn = |radian: T| {
+            let mut radian = radian;
+            if below(radian, T::zero()) {
+                radian = two_pi + two_pi - Self::reduce(-radian);
+            }
+            while !below(radian, two_pi) {
+                radian = radian - two_pi;
+            }
+            radian
+        };
+        if !below(self.source_radian, T::zero()) && below(self.source_radian, self.target_radian) {
+            return (self.source_radian, self.target_radian);
+        }
+        let source_radian = first_turn(self.source_radian);
+        let target_radian = first_turn(self.target_radian);
+        if below(source_radian, target_radian) {
+            (source_radian, target_radian)
+        } else {
+            (source_radian, target_radian + two_pi)
+        }
+    }
+
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
         let two_pi = pi * T::from_f64(2.0);
-        let mut source_radian = self.source_radian;
-        let mut target_radian = self.target_radian;
+        let (mut source_radian, mut target_radian) = self.unwound();
         while source_radian.equals(two_pi) || source_radian > two_pi {
             source_radian = source_radian - two_pi;
             target_radian = target_radian - two_pi;
@@ -59,15 +85,16 @@ impl<T: NumberType> ArcSegment2<T> {
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = vec![self.source_radian.clone()];
+        let (source_radian, target_radian) = self.unwound();
+        let mut radians = vec![source_radian.clone()];
         let mut end_pi = T::zero();
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !end_pi.equals(self.source_radian) && end_pi > self.source_radian {
+        while !end_pi.equals(target_radian) && end_pi < target_radian {
+            if !end_pi.equals(source_radian) && end_pi > source_radian {
                 radians.push(end_pi.clone());
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
+        radians.push(target_radian.clone());
         for i in 0..radians.len() - 1 {
             arcs.push(ArcSegment2::new(
                 self.support,
-- 
2.43.0


From 74e05b7e507da9c9f9fecc2184a1bd97eb2e530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 37/50] fix: the sweep places a steep segment exactly at points
 that lie on it

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index baad77b..8d9b6e7 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -577,7 +577,8 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
         Segment2Type::LineSegment2 => {
             let source = segment.source();
             let target = segment.target();
-            if source.x().equals(target.x()) {
+            // along a steep segment, rounding in x alone would move the height visibly
+            if source.x().equals(target.x()) || is_point_2_on_line_segment_2(point, segment) {
                 return point.y();
             }
             let y = source.y()
-- 
2.43.0


From f9292fc7ff27eac0cedb6051a6ef38f6e4bf3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 38/50] fix: a line or segment meets a ray wherever the
 crossing is not behind its origin

---
 src/algorithm/intersection/line_2_ray_2.rs         | 14 +++++++++-----
 src/algorithm/intersection/line_segment_2_ray_2.rs |  9 +++++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/intersection/line_2_ray_2.rs b/src/algorithm/intersection/line_2_ray_2.rs
index a47f4b7..667c4b4 100644
--- a/src/algorithm/intersection/line_2_ray_2.rs
+++ b/src/algorithm/intersection/line_2_ray_2.rs
@@ -1,5 +1,5 @@
 use crate::{
-    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
+    algorithm::location::point_2_line_2::is_point_2_on_line_2,
     kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2},
 };
 
@@ -22,10 +22,14 @@ pub fn line_2_ray_2_intersection<T: NumberType>(
     );
     let intersection = line_2_line_2_intersection(&line, &line_ray);
     match intersection {
-        Some(point) => match locate_point_2_ray_2(&point, ray) {
-            Point2Ray2Location::On => Some(point),
-            _ => None,
-        },
+        Some(point) => {
+            // on both lines up to rounding, which is large for small angles: only the side counts
+            if direction.dot(&(point - origin)) > T::zero() || is_point_2_on_line_2(&origin, line) {
+                Some(point)
+            } else {
+                None
+            }
+        }
         None => None,
     }
 }
diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 716ec0d..96ed7fa 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,7 +1,8 @@
 use crate::{
     algorithm::location::{
         location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
+        point_2_line_segment_2::is_point_2_on_line_segment_2,
+        point_2_ray_2::locate_point_2_ray_2,
     },
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
@@ -60,7 +61,11 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                         let t = cross1 / (cross1 - cross2);
                         let point = source.get_vector() + (target - source) * t;
                         let point = Point2::new(point.x(), point.y());
-                        if is_point_2_on_ray_2(&point, ray_segment) {
+                        // on the line of the ray up to rounding: only the side counts
+                        let v = point - ray_segment.origin();
+                        if ray_segment.direction().dot(&v) > T::zero()
+                            || is_point_2_on_line_segment_2(&ray_segment.origin(), line_segment)
+                        {
                             result.push(point);
                         }
                         return result;
-- 
2.43.0


From 3601472ec41c47ecb60692468a6a4ab7a3321ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 39/50] fix: the sweep finds what a steep segment crosses just
 beside its end points

---
 .../sweep_segment_2_intersection.rs           | 67 +++++++++++++------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 8d9b6e7..e93cb95 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -188,6 +188,17 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
+        // the points of a steep segment may share an x up to rounding without being visited in
+        // their order along the segment: where it starts and ends, look at all active segments
+        for segment in source_is_p.iter().chain(&target_is_p) {
+            if is_steep(segment) {
+                for status_node in &old_status_nodes {
+                    for point in calculate_intersection_points(segment, &status_node.segment) {
+                        self.intersection_points.insert(point);
+                    }
+                }
+            }
+        }
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
         for status_node in old_status_nodes {
@@ -508,25 +519,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment_b: &StatusNodeSegment<T>,
         event_point: &Point2<T>,
     ) {
-        let points = match segment_a {
-            StatusNodeSegment::LineSegment2(segment_a) => match segment_b {
-                StatusNodeSegment::LineSegment2(segment_b) => {
-                    segment_2_segment_2_intersection(segment_a, segment_b)
-                }
-                StatusNodeSegment::ArcSegment2(segment_b) => {
-                    segment_2_segment_2_intersection(segment_a, segment_b)
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment_a) => match segment_b {
-                StatusNodeSegment::LineSegment2(segment_b) => {
-                    segment_2_segment_2_intersection(segment_a, segment_b)
-                }
-                StatusNodeSegment::ArcSegment2(segment_b) => {
-                    segment_2_segment_2_intersection(segment_a, segment_b)
-                }
-            },
-        };
-        for point in points {
+        for point in calculate_intersection_points(segment_a, segment_b) {
             if point < *event_point {
                 self.event_queue.push(point);
             }
@@ -534,6 +527,42 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
     }
 }
 
+fn calculate_intersection_points<T: NumberType>(
+    segment_a: &StatusNodeSegment<T>,
+    segment_b: &StatusNodeSegment<T>,
+) -> Vec<Point2<T>> {
+    match segment_a {
+        StatusNodeSegment::LineSegment2(segment_a) => match segment_b {
+            StatusNodeSegment::LineSegment2(segment_b) => {
+                segment_2_segment_2_intersection(segment_a, segment_b)
+            }
+            StatusNodeSegment::ArcSegment2(segment_b) => {
+                segment_2_segment_2_intersection(segment_a, segment_b)
+            }
+        },
+        StatusNodeSegment::ArcSegment2(segment_a) => match segment_b {
+            StatusNodeSegment::LineSegment2(segment_b) => {
+                segment_2_segment_2_intersection(segment_a, segment_b)
+            }
+            StatusNodeSegment::ArcSegment2(segment_b) => {
+                segment_2_segment_2_intersection(segment_a, segment_b)
+            }
+        },
+    }
+}
+
+/// A difference in x within the tolerance is a visible difference in height along the segment.
+fn is_steep<T: NumberType>(segment: &StatusNodeSegment<T>) -> bool {
+    match segment {
+        StatusNodeSegment::LineSegment2(segment) => {
+            let x = (segment.target().x() - segment.source().x()).abs();
+            let y = (segment.target().y() - segment.source().y()).abs();
+            !x.equals(T::zero()) && x * T::from_f64(1000.0) < y
+        }
+        _ => false,
+    }
+}
+
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
-- 
2.43.0


From 6c314d6383fc601cddf7bcd538ad000b4d8341d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 40/50] fix: the sweep keeps crossings whose x is that of an
 event up to rounding

---
 .../sweep_segment_2_intersection.rs           | 82 ++++++++-----------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index e93cb95..0e437b1 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -188,17 +188,6 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
-        // the points of a steep segment may share an x up to rounding without being visited in
-        // their order along the segment: where it starts and ends, look at all active segments
-        for segment in source_is_p.iter().chain(&target_is_p) {
-            if is_steep(segment) {
-                for status_node in &old_status_nodes {
-                    for point in calculate_intersection_points(segment, &status_node.segment) {
-                        self.intersection_points.insert(point);
-                    }
-                }
-            }
-        }
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
         for status_node in old_status_nodes {
@@ -513,56 +502,51 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         None
     }
 
+    /// Does the point share its x, up to rounding, with the event point, and is it new?
+    fn is_unvisited_above(&self, point: &Point2<T>, event_point: &Point2<T>) -> bool {
+        point.x().equals(event_point.x())
+            && !self
+                .intersection_points
+                .mid_order_traversal()
+                .iter()
+                .any(|found| found.equals(point))
+    }
+
     fn find_intersection_points(
         &mut self,
         segment_a: &StatusNodeSegment<T>,
         segment_b: &StatusNodeSegment<T>,
         event_point: &Point2<T>,
     ) {
-        for point in calculate_intersection_points(segment_a, segment_b) {
-            if point < *event_point {
+        let points = match segment_a {
+            StatusNodeSegment::LineSegment2(segment_a) => match segment_b {
+                StatusNodeSegment::LineSegment2(segment_b) => {
+                    segment_2_segment_2_intersection(segment_a, segment_b)
+                }
+                StatusNodeSegment::ArcSegment2(segment_b) => {
+                    segment_2_segment_2_intersection(segment_a, segment_b)
+                }
+            },
+            StatusNodeSegment::ArcSegment2(segment_a) => match segment_b {
+                StatusNodeSegment::LineSegment2(segment_b) => {
+                    segment_2_segment_2_intersection(segment_a, segment_b)
+                }
+                StatusNodeSegment::ArcSegment2(segment_b) => {
+                    segment_2_segment_2_intersection(segment_a, segment_b)
+                }
+            },
+        };
+        for point in points {
+            // where segments are steep, the points of one x up to rounding are not found, and may
+            // not be visited, in their order along the segments
+            if point < *event_point || self.is_unvisited_above(&point, event_point) {
                 self.event_queue.push(point);
             }
+            self.intersection_points.insert(point);
         }
     }
 }
 
-fn calculate_intersection_points<T: NumberType>(
-    segment_a: &StatusNodeSegment<T>,
-    segment_b: &StatusNodeSegment<T>,
-) -> Vec<Point2<T>> {
-    match segment_a {
-        StatusNodeSegment::LineSegment2(segment_a) => match segment_b {
-            StatusNodeSegment::LineSegment2(segment_b) => {
-                segment_2_segment_2_intersection(segment_a, segment_b)
-            }
-            StatusNodeSegment::ArcSegment2(segment_b) => {
-                segment_2_segment_2_intersection(segment_a, segment_b)
-            }
-        },
-        StatusNodeSegment::ArcSegment2(segment_a) => match segment_b {
-            StatusNodeSegment::LineSegment2(segment_b) => {
-                segment_2_segment_2_intersection(segment_a, segment_b)
-            }
-            StatusNodeSegment::ArcSegment2(segment_b) => {
-                segment_2_segment_2_intersection(segment_a, segment_b)
-            }
-        },
-    }
-}
-
-/// A difference in x within the tolerance is a visible difference in height along the segment.
-fn is_steep<T: NumberType>(segment: &StatusNodeSegment<T>) -> bool {
-    match segment {
-        StatusNodeSegment::LineSegment2(segment) => {
-            let x = (segment.target().x() - segment.source().x()).abs();
-            let y = (segment.target().y() - segment.source().y()).abs();
-            !x.equals(T::zero()) && x * T::from_f64(1000.0) < y
-        }
-        _ => false,
-    }
-}
-
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
-- 
2.43.0


From 68aaae569074ff3101d0fbbbb671cf7c25311a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 41/50] fix: the sweep takes the ends of a very short arc in
 the order it visits them

---
 .../sweep_segment_2_intersection.rs           | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 0e437b1..e7e6823 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -291,9 +291,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    if (arc_segment.is_top() && arc_segment.target().equals(event_point))
-                        || (!arc_segment.is_top() && arc_segment.source().equals(event_point))
-                    {
+                    if ends_of_arc(arc_segment).0.equals(event_point) {
                         result.push(segment.clone());
                     }
                 }
@@ -313,9 +311,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    if (arc_segment.is_top() && arc_segment.source().equals(target))
-                        || (!arc_segment.is_top() && arc_segment.target().equals(target))
-                    {
+                    if ends_of_arc(&arc_segment).1.equals(target) {
                         result.push(status_node.segment);
                     }
                 }
@@ -626,6 +622,18 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
     }
 }
 
+/// The end points of a monotone arc in the order in which the sweep visits them: the ends of a
+/// very short one may share their x up to rounding.
+fn ends_of_arc<T: NumberType>(arc_segment: &ArcSegment2<T>) -> (Point2<T>, Point2<T>) {
+    let source = arc_segment.source();
+    let target = arc_segment.target();
+    if source > target {
+        (source, target)
+    } else {
+        (target, source)
+    }
+}
+
 fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T> {
     match segment.segment_type() {
         Segment2Type::LineSegment2 => segment.target(),
@@ -635,11 +643,7 @@ fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T>
                 segment.source_radian(),
                 segment.target_radian(),
             );
-            if arc_segment.is_top() {
-                arc_segment.source()
-            } else {
-                arc_segment.target()
-            }
+            ends_of_arc(&arc_segment).1
         }
     }
 }
-- 
2.43.0


From e25648b2dda63e906357cea051aaf93605ade4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 42/50] fix: the height of an arc just beside its end is that
 of the end

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index e7e6823..0fc55ea 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -615,6 +615,11 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
                 y_a
             } else if is_point_2_on_arc_segment_2(&p_b, segment) {
                 y_b
+            } else if point.x().equals(segment.source().x()) {
+                // just beside an end at which the arc is steep
+                segment.source().y()
+            } else if point.x().equals(segment.target().x()) {
+                segment.target().y()
             } else {
                 point.y()
             }
-- 
2.43.0


From e5ae3eee322f86dbc88d1c19edec443c6a620491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 43/50] fix: the ends of an arc count by distance, whatever the
 radius

---
 src/algorithm/location/point_2_arc_segment_2.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/location/point_2_arc_segment_2.rs b/src/algorithm/location/point_2_arc_segment_2.rs
index 98f33df..fd86f95 100644
--- a/src/algorithm/location/point_2_arc_segment_2.rs
+++ b/src/algorithm/location/point_2_arc_segment_2.rs
@@ -28,15 +28,10 @@ pub fn locate_point_2_arc_segment_2<T: NumberType>(
         if source == target {
             radian = T::pi() * T::from_f64(2.0);
         }
-        let radian_source = vector.radian_to(&source);
         let radian_target = vector.radian_to(&target);
         let source_radian = source.radian_to(&vector);
-        let target_radian = target.radian_to(&vector);
-        if radian_source.equals(T::zero())
-            || radian_target.equals(T::zero())
-            || source_radian.equals(T::zero())
-            || target_radian.equals(T::zero())
-        {
+        // a difference of radians means more the larger the circle is: compare distances
+        if point.equals(&arc_segment.source()) || point.equals(&arc_segment.target()) {
             Point2ArcSegment2Location::On
         } else if (source_radian + radian_target).equals(radian) {
             Point2ArcSegment2Location::On
-- 
2.43.0


From dc1c56bfc4eea90e4aee6dd796e9a40866a91b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 44/50] fix: project onto a line whatever the scale of its
 coefficients

---
 src/algorithm/projection/point_2_line_2.rs | 23 ++++------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 6a52612..ac42009 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -1,26 +1,11 @@
-use crate::{
-    algorithm::intersection::line_2_line_2::line_2_line_2_intersection,
-    kernel::{line_2::Line2, number_type::NumberType, point_2::Point2},
-};
+use crate::kernel::{line_2::Line2, number_type::NumberType, point_2::Point2};
 
 pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>) -> Point2<T> {
     let a = line.a();
     let b = line.b();
-    if b.equals(T::zero()) {
-        let c = line.c();
-        let x = -c / a;
-        return Point2::new(x, point.y());
-    } else if a.equals(T::zero()) {
-        let c = line.c();
-        let y = -c / b;
-        return Point2::new(point.x(), y);
-    } else {
-        let t = b / a;
-        let c = point.y() - t * point.x();
-        let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
-        let intersection = line_2_line_2_intersection(line, &line_vertical);
-        return intersection.unwrap();
-    }
+    // whatever the scale of the coefficients: no coefficient is compared with a tolerance
+    let t = (a * point.x() + b * point.y() + line.c()) / (a * a + b * b);
+    Point2::new(point.x() - a * t, point.y() - b * t)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1c2fc81722396413b766cd2a25f33ec9595a1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 45/50] fix: two lines intersect whatever the scale of their
 coefficients in f32 too

---
 src/algorithm/intersection/line_2_line_2.rs | 2 +-
 src/kernel/line_2.rs                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_2_line_2.rs b/src/algorithm/intersection/line_2_line_2.rs
index d351307..3b415df 100644
--- a/src/algorithm/intersection/line_2_line_2.rs
+++ b/src/algorithm/intersection/line_2_line_2.rs
@@ -17,7 +17,7 @@ pub fn line_2_line_2_intersection<T: NumberType>(
     let c_2 = line_b.c();
     let det = a_1 * b_2 - a_2 * b_1;
     // the sine of the angle between the lines, whatever the scale of their coefficients
-    let norm = ((a_1 * a_1 + b_1 * b_1) * (a_2 * a_2 + b_2 * b_2)).sqrt();
+    let norm = (a_1 * a_1 + b_1 * b_1).sqrt() * (a_2 * a_2 + b_2 * b_2).sqrt();
     if det.abs() <= T::default_eps() * norm {
         return None;
     }
diff --git a/src/kernel/line_2.rs b/src/kernel/line_2.rs
index e0e3518..0f2c247 100644
--- a/src/kernel/line_2.rs
+++ b/src/kernel/line_2.rs
@@ -55,7 +55,7 @@ impl<T: NumberType> PartialEq for Line2<T> {
         let det_c = self.c * other.b - self.b * other.c;
         let det_a = self.a * other.c - self.c * other.a;
         // whatever the scale of the coefficients
-        let norm = ((self.a * self.a + self.b * self.b) * (other.a * other.a + other.b * other.b)).sqrt();
+        let norm = (self.a * self.a + self.b * self.b).sqrt() * (other.a * other.a + other.b * other.b).sqrt();
         let eps = T::default_eps() * norm;
         return det.abs() < eps && det_c.abs() < eps && det_a.abs() < eps;
     }
-- 
2.43.0


From 76cea4a8611960574522632afde91fba503aa167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 46/50] fix: points beside an almost level edge of a polygon
 are outside

---
 src/algorithm/location/point_2_polygon_2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 034c226..6d0b86a 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -46,11 +46,17 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
         let edge_location = locate_point_2_line_segment_2(point, edge);
         let upward = edge.source().y() <= point.y() && edge.target().y() > point.y();
         let downward = edge.target().y() <= point.y() && edge.source().y() > point.y();
-        match edge_location {
+        let crossed = match edge_location {
             Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left if upward => inside = !inside,
-            Point2Segment2Location::Right if downward => inside = !inside,
-            _ => {}
+            Point2Segment2Location::Left => upward,
+            Point2Segment2Location::Right => downward,
+            // beside the end of an edge that is level but for less than the tolerance
+            Point2Segment2Location::Collinear => {
+                (upward || downward) && point.x() < edge.source().x()
+            }
+        };
+        if crossed {
+            inside = !inside;
         }
     }
     if inside {
-- 
2.43.0


From ba5fcc60e79352b93a1aa6fead29c28ab6e649a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 47/50] fix: order points and vertices consistently with their
 equality

Two points whose coordinates each agree within the tolerance but whose
distance exceeds it were unequal, yet compared as Equal.
---
 src/kernel/point_2.rs  | 2 +-
 src/kernel/vertex_2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/point_2.rs b/src/kernel/point_2.rs
index ff106f6..481365c 100644
--- a/src/kernel/point_2.rs
+++ b/src/kernel/point_2.rs
@@ -94,7 +94,7 @@ impl<T: NumberType> PartialEq for Point2<T> {
 impl<T: NumberType> Ord for Point2<T> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         if self.x().equals(other.x()) {
-            if self.y().equals(other.y()) {
+            if self.equals(other) {
                 return std::cmp::Ordering::Equal;
             } else {
                 if self.y() > other.y() {
diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index b85291f..842406f 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -83,7 +83,7 @@ impl<T: NumberType> PartialEq for Vertex2<T> {
 impl<T: NumberType> Ord for Vertex2<T> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         if self.x().equals(other.x()) {
-            if self.y().equals(other.y()) {
+            if self.equals(other) {
                 return std::cmp::Ordering::Equal;
             } else {
                 if self.y() > other.y() {
-- 
2.43.0


From d9bb2731be0714b3dad350056741fc81645fea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 48/50] fix: hull of points that differ in x by fractions of
 the tolerance

Sorting with a tolerant comparison is not transitive: the sort could panic,
and the chains were built over points out of order.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index fee1861..51a58e9 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -10,8 +10,9 @@ impl<T: NumberType> ConvexHull2<T> {
     }
 
     pub fn convex_hull(&mut self) -> Vec<Point2<T>> {
+        // ordered exactly: a tolerant order is not transitive
         self.points.sort_by(|a, b| {
-            if !a.x().equals(b.x()) {
+            if a.x() != b.x() {
                 a.x().partial_cmp(&b.x()).unwrap()
             } else {
                 a.y().partial_cmp(&b.y()).unwrap()
@@ -43,6 +44,10 @@ impl<T: NumberType> ConvexHull2<T> {
         lower.pop();
         upper.pop();
         lower.extend(upper);
+        lower.dedup();
+        while lower.len() > 1 && lower[0] == lower[lower.len() - 1] {
+            lower.pop();
+        }
         lower
     }
 
-- 
2.43.0


From b52220dfddd92a850b8797ee593d0945937b58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 49/50] fix: a sweep over segments apart by fractions of the
 tolerance could panic

Their comparison is not transitive, which sort_by may answer with a panic.
---
 .../sweep_segment_2_intersection.rs           | 84 +++++++++++--------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 0fc55ea..88f57e3 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -210,24 +210,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for segment in &contain_p {
             reinserted_segments.push(segment.clone());
         }
-        reinserted_segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
+        let reinserted_segments = sort_segments(reinserted_segments, event_point);
         for segment in reinserted_segments {
             match segment {
                 StatusNodeSegment::LineSegment2(line_segment) => {
@@ -391,25 +374,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for segment in contain_p {
             segments.push(segment.clone());
         }
-        segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
-        segments
+        sort_segments(segments, event_point)
     }
 
     fn get_left_of_segment(
@@ -543,6 +508,51 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
     }
 }
 
+fn compare_status_segments<T: NumberType>(
+    a: &StatusNodeSegment<T>,
+    b: &StatusNodeSegment<T>,
+    event_point: &Point2<T>,
+) -> std::cmp::Ordering {
+    match a {
+        StatusNodeSegment::LineSegment2(segment) => match b {
+            StatusNodeSegment::LineSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+            StatusNodeSegment::ArcSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+        },
+        StatusNodeSegment::ArcSegment2(segment) => match b {
+            StatusNodeSegment::LineSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+            StatusNodeSegment::ArcSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+        },
+    }
+}
+
+/// A stable sort that any comparison can be given: the one of segments that are apart by
+/// fractions of the tolerance is not transitive, and `sort_by` may panic on that.
+fn sort_segments<T: NumberType>(
+    segments: Vec<StatusNodeSegment<T>>,
+    event_point: &Point2<T>,
+) -> Vec<StatusNodeSegment<T>> {
+    let mut sorted: Vec<StatusNodeSegment<T>> = Vec::with_capacity(segments.len());
+    for segment in segments {
+        let follows = |other: &StatusNodeSegment<T>| {
+            compare_status_segments(other, &segment, event_point) != std::cmp::Ordering::Greater
+        };
+        let index = match sorted.last() {
+            Some(last) if !follows(last) => sorted.partition_point(follows),
+            _ => sorted.len(),
+        };
+        sorted.insert(index, segment);
+    }
+    sorted
+}
+
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
-- 
2.43.0


From 1ab03afda05e22a0ff91e72a0443e4a148a3e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 50/50] fix: a sweep over segments apart by fractions of the
 tolerance could run for ever

A point is queued once: in the order of points, which goes by the tolerance,
points apart by fractions of it can follow one another in a circle.
---
 .../sweep_segment_2_intersection.rs           | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 88f57e3..54a0d83 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -30,6 +30,7 @@ pub struct SweepSegment2Intersection<T: NumberType> {
     origin_segments: Vec<StatusNodeSegment<T>>,
     segments: Vec<StatusNodeSegment<T>>,
     event_queue: PriorityQueue<Point2<T>>,
+    queued_points: Vec<Point2<T>>,
     status_tree: AVLTree<StatusNode<T>>,
     intersection_points: AVLTree<Point2<T>>,
     last_event_point: Option<Point2<T>>,
@@ -108,6 +109,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             origin_segments: Vec::new(),
             segments: Vec::new(),
             event_queue: PriorityQueue::new(),
+            queued_points: Vec::new(),
             status_tree: AVLTree::new(AVLTreeOption::SameNodeInsertRight),
             intersection_points: AVLTree::new(AVLTreeOption::DisableSameNode),
             last_event_point: None,
@@ -116,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
 
     pub fn intersection(&mut self) -> Vec<Point2<T>> {
         self.event_queue.clear();
+        self.queued_points.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
         self.last_event_point = None;
@@ -473,6 +476,22 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 .any(|found| found.equals(point))
     }
 
+    /// Is the point queued for the first time? The order of points goes by the tolerance, so
+    /// points apart by fractions of it could follow one another in a circle for ever.
+    fn is_queued_first(&mut self, point: &Point2<T>) -> bool {
+        let index = self.queued_points.partition_point(|queued| {
+            queued.x() < point.x() || queued.x() == point.x() && queued.y() < point.y()
+        });
+        let is_first = match self.queued_points.get(index) {
+            Some(queued) => queued.x() != point.x() || queued.y() != point.y(),
+            None => true,
+        };
+        if is_first {
+            self.queued_points.insert(index, point.clone());
+        }
+        is_first
+    }
+
     fn find_intersection_points(
         &mut self,
         segment_a: &StatusNodeSegment<T>,
@@ -500,7 +519,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for point in points {
             // where segments are steep, the points of one x up to rounding are not found, and may
             // not be visited, in their order along the segments
-            if point < *event_point || self.is_unvisited_above(&point, event_point) {
+            if (point < *event_point || self.is_unvisited_above(&point, event_point))
+                && self.is_queued_first(&point)
+            {
                 self.event_queue.push(point);
             }
             self.intersection_points.insert(point);
-- 
2.43.0


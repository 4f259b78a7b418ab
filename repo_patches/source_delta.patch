From 9c4d9e7215d02c884fab0cd178bb4b20c8068c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 01/16] fix: straight or forward-going consecutive segments are
 not a self-intersection

Line2::intersection_point3 used start.x() for the y component and never
checked that the second segment actually turns back over the first one.
---
 src/linestring_2d.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..07eb43c 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,29 +328,25 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
+        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.y());
         let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
+        if middle_sub_start.dot(middle_sub_end) <= T::Scalar::ZERO {
+            // the line continues forward, or turns at most 90°, it can't fold back on itself
+            return Ok(None);
+        }
         let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
         let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
 
         if start_is_vertical && end_is_vertical {
-            // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
+            // both lines are vertical, pick the shortest vector for overlap point
+            return if (middle_sub_start.x() * middle_sub_start.x()
+                + middle_sub_start.y() * middle_sub_start.y())
+                < (middle_sub_end.x() * middle_sub_end.x()
+                    + middle_sub_end.y() * middle_sub_end.y())
             {
-                // opposite direction
-                Ok(None)
+                Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
             } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
+                Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
             };
         } else if start_is_vertical || end_is_vertical {
             return Ok(None);
-- 
2.43.0


From 0913f1ae6f29b8fbe79ebc2e496f81a91e8b055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 02/16] fix: overlapping segments that share an end point do
 self-intersect

The brute force branch of is_self_intersecting() only looked at one end of the
overlap, and ignored it when that happened to be an end point of both segments.
---
 src/linestring_2d.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 07eb43c..cf07e90 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -727,8 +727,12 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                         if Line2::intersection_point3(l0.1.start, l0.1.end, l1.1.end)?.is_some() {
                             return Ok(true);
                         }
-                    } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
+                    } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
+                        if let Intersection::Overlap(_) = intersection {
+                            // sharing more than a single point
+                            return Ok(true);
+                        }
+                        let point = intersection.single();
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 72218dc8503e2c834b890a96fc31ab09f90c9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 03/16] fix: convex_hull_par() could skip hull vertices

The early exit when combining two partial hulls assumed that the candidates
become worse monotonically, counted from the lowest point of the other hull.
What the result became depended on how rayon split the work.
---
 src/linestring_2d/convex_hull.rs | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..ff46243 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -869,8 +869,7 @@ struct VertexIndex {
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
 /// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// find a better `end_point`.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -954,9 +953,8 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
+            // all points must be examined, the best end_point may be on either side of the first
+            // (lowest) point of the other hull, so there is no safe early exit.
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -976,7 +974,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -989,23 +986,15 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
+            // all points must be examined, the best end_point may be on either side of the first
+            // (lowest) point of the other hull, so there is no safe early exit.
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -1025,7 +1014,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1038,17 +1026,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From 9fd0be1af461eb8d3aca3db44f08fc523d6bfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 04/16] fix: convex hulls of points containing duplicates of
 the starting point

Comparing indices instead of coordinates made indexed_graham_scan() drop hull
vertices, and the gift wrapping loops run several laps or never end.
---
 src/linestring_2d/convex_hull.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index ff46243..b43c42b 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -332,7 +332,8 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        // `vertices` may contain duplicates of the starting point, so don't compare indices
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -480,7 +481,8 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        // `vertices` may contain duplicates of the starting point, so don't compare indices
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
@@ -804,10 +806,11 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
+            // the starting point, or a duplicate of it
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
@@ -1040,7 +1043,8 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        if vertices[end_point.index] == vertices[starting_index.index] {
+            // `vertices` may contain duplicates of the starting point, so don't compare indices
             break;
         }
     }
-- 
2.43.0


From dff018cd64339b3efc089e22403b756ae8159611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 05/16] fix: three point convex hulls are closed, and free from
 collinear points

The len()==3 shortcut returned the three points unclosed (against the
documentation) and did not check if the points were collinear.
---
 src/linestring_2d/convex_hull.rs | 53 --------------------------------
 1 file changed, 53 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index b43c42b..b467493 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -277,13 +277,6 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.len() <= 2 {
         return Ok(vertices.to_vec());
     }
-    if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
-        };
-    }
 
     let starting_point = find_lowest_x(vertices)?.0;
 
@@ -420,19 +413,6 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
     let mut hull = Vec::with_capacity(indices.len() / 4);
@@ -632,13 +612,6 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.len() <= 2 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
     //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
@@ -765,19 +738,6 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
     } else {
@@ -1121,19 +1081,6 @@ pub fn convex_hull_par<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
 
     // Create chunks of indices
     let chunks: Vec<_> = indices.chunks(per_thread_chunk_size).collect();
-- 
2.43.0


From fdc569722586fd7ee904cce161c5f02652276d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 06/16] fix: gift wrapping lost hull vertices when both
 duplicates got rejected

An already rejected point was used as the initial end_point, its unvisited
duplicate was then rejected as 'collinear but closer'.
---
 src/linestring_2d/convex_hull.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index b467493..9c9f2f3 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -295,6 +295,10 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
             let _ = visited.set(point_on_hull, true);
         }
         let mut end_point = (point_on_hull + 1) % vertices.len();
+        if visited[end_point] {
+            // a rejected point must not compete with its unvisited duplicates
+            end_point = starting_point;
+        }
 
         for j in 0..vertices.len() {
             if j == point_on_hull || j == end_point || visited[j] {
@@ -429,6 +433,10 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
             let _ = visited.set(point_on_hull, true);
         }
         let mut end_point = (point_on_hull + 1) % indices.len();
+        if visited[end_point] {
+            // a rejected point must not compete with its unvisited duplicates
+            end_point = starting_index;
+        }
 
         for j in 0..indices.len() {
             if j == point_on_hull || j == end_point || visited[j] {
-- 
2.43.0


From 98e319570b90895e71f6cbba2891be7c75604867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 07/16] fix: contains_point_exclusive() rejected interior
 points on a diagonal of the hull

---
 src/linestring_2d/convex_hull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 9c9f2f3..8cb941a 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1305,7 +1305,8 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     //println!("{:?}", slice );
     // Check the final slice (triangle)
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        // this is a diagonal of the hull, not an edge
+        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
-- 
2.43.0


From f9eccfc2df2ce3e68190979b1a0d2ed2dae00135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 08/16] fix: discretize() keeps all original points when the
 distance is infinite

---
 src/linestring_2d.rs | 2 +-
 src/linestring_3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index cf07e90..266e49f 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1603,7 +1603,7 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..99dbf78 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -728,7 +728,7 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From d22764dcc0fa54dc31d4e08fdc08b9eb7e2c7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 09/16] fix: indexed_simplify_rdp() with less than two indices

The number of vertices was tested instead of the number of indices: no indices
caused a panic, and a single index was returned twice.
---
 src/linestring_2d/simplify.rs | 2 +-
 src/linestring_3d/simplify.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..b8386dc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 60d49d7e38088f2a3107871595f884987abb22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 10/16] fix: the sweep-line missed lines passing through an
 event point
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

* A line starting or ending on top of another (active) line was not detected,
  and neither were collinear overlaps and identical lines.
* The neighbour tie-break compared Δy/Δx, which doesn't order lines of
  different slope sign. Use the inverse slope.
* Calculate the sweep-line intersection without the large cancellation error.
---
 src/linestring_2d/indexed_intersection.rs | 62 +++++++++++++++++----
 src/linestring_2d/intersection.rs         | 66 +++++++++++++++++++----
 2 files changed, 108 insertions(+), 20 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..950dd25 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -44,6 +44,7 @@ limitations under the License.
 #[cfg(test)]
 mod tests;
 
+use super::intersection::is_point_on_active_line;
 use crate::{linestring_2d::Line2, LinestringError};
 use ahash::AHashSet;
 use smallvec::{smallvec, SmallVec};
@@ -369,13 +370,14 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the negated inverse slope (-Δx/Δy) of the line. This is a value that orders
+/// lines sharing a point, from right to left, in the same way regardless of the sign of the slope.
 fn sweepline_intersection<T: GenericVector2>(
     vertices: &[T],
     sweepline: T,
     other: (usize, usize),
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
+    // line equation: x=x1+(y-y1)*Δx/Δy
     let other_start = vertices[other.0];
     let other_end = vertices[other.1];
 
@@ -390,13 +392,13 @@ fn sweepline_intersection<T: GenericVector2>(
     }
 
     if ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
+        return Some((x1, T::Scalar::ZERO));
     }
 
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    Some((
+        x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
+        (x1 - x2) / (y2 - y1),
+    ))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
@@ -645,7 +647,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
+            if let Some((key, mut event)) = {
                 #[cfg(feature = "map_first_last")]
                 {
                     site_events.pop_first()
@@ -668,6 +670,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                     }
                 }
             } {
+                self.add_passing_lines(&key, &mut event, &active_lines);
                 self.handle_event(
                     &key,
                     &event,
@@ -693,6 +696,45 @@ impl<T: GenericVector2> IntersectionTester<T> {
         ))
     }
 
+    /// Add the active lines passing through the event point to the list of intersecting lines.
+    /// Lines that starts or ends on top of an other line are not known to intersect until now.
+    fn add_passing_lines(
+        &self,
+        key: &SiteEventKey<T>,
+        event: &mut SiteEvent,
+        active_lines: &AHashSet<usize>,
+    ) {
+        let mut intersections = event.intersection.take().unwrap_or_default();
+        for line_index in active_lines.iter() {
+            let line = self.lines[*line_index];
+            if is_point_on_active_line(self.vertices[line.0], self.vertices[line.1], key.pos)
+                && !event.drop.iter().flatten().any(|l| l == line_index)
+                && !intersections.contains(line_index)
+            {
+                intersections.push(*line_index);
+            }
+        }
+        if !intersections.is_empty() {
+            intersections.sort_unstable();
+            event.intersection = Some(intersections);
+        }
+    }
+
+    /// Returns true if some of the lines starting at this event also ends at the same point.
+    fn contains_identical_lines(&self, event: &SiteEvent) -> bool {
+        let end_points = |line: &usize| {
+            let (a, b) = self.lines[*line];
+            (self.vertices[a], self.vertices[b])
+        };
+        event.add.iter().flatten().enumerate().any(|(i, a)| {
+            let (a0, a1) = end_points(a);
+            event.add.iter().flatten().skip(i + 1).any(|b| {
+                let (b0, b1) = end_points(b);
+                (a0 == b0 && a1 == b1) || (a0 == b1 && a1 == b0)
+            })
+        })
+    }
+
     #[inline(always)]
     #[allow(clippy::too_many_arguments)]
     fn handle_event(
@@ -716,8 +758,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
         if self.ignore_end_point_intersections {
             // only report end point intersections if they collide with
-            // a calculated intersection point
-            if intersections_found > 0 {
+            // a calculated intersection point, or if two lines are identical
+            if intersections_found > 0 || self.contains_identical_lines(event) {
                 if removed_active_lines > 0 {
                     self.report_intersections_to_result(
                         result,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..89279dc 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -362,13 +362,22 @@ impl SiteEvent {
     }
 }
 
+/// Returns true if `pos` lies on the line `start`-`end`. Only the direction of the line is tested,
+/// it is already known that an active line reaches the sweep-line position.
+pub(crate) fn is_point_on_active_line<T: GenericVector2>(start: T, end: T, pos: T) -> bool {
+    let line = end - start;
+    let to_pos = pos - start;
+    start != end && approx::ulps_eq!(line.x() * to_pos.y(), line.y() * to_pos.x())
+}
+
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the negated inverse slope (-Δx/Δy) of the line. This is a value that orders
+/// lines sharing a point, from right to left, in the same way regardless of the sign of the slope.
 fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
+    // line equation: x=x1+(y-y1)*Δx/Δy
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
@@ -380,13 +389,13 @@ fn sweepline_intersection<T: GenericVector2>(
     }
 
     if approx::ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
+        return Some((x1, T::Scalar::ZERO));
     }
 
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    Some((
+        x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
+        (x1 - x2) / (y2 - y1),
+    ))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
@@ -571,7 +580,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
+            if let Some((key, mut event)) = {
                 #[cfg(feature = "map_first_last")]
                 {
                     site_events.pop_first()
@@ -594,6 +603,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                     }
                 }
             } {
+                self.add_passing_lines(&key, &mut event, &active_lines);
                 self.handle_event(
                     &key,
                     &event,
@@ -615,6 +625,42 @@ impl<T: GenericVector2> IntersectionData<T> {
         Ok(result.into_iter().map(|x| (x.0.pos, x.1)))
     }
 
+    /// Add the active lines passing through the event point to the list of intersecting lines.
+    /// Lines that starts or ends on top of an other line are not known to intersect until now.
+    fn add_passing_lines(
+        &self,
+        key: &SiteEventKey<T>,
+        event: &mut SiteEvent,
+        active_lines: &AHashSet<usize>,
+    ) {
+        let mut intersections = event.intersection.take().unwrap_or_default();
+        for line_index in active_lines.iter() {
+            let line = &self.lines[*line_index];
+            if is_point_on_active_line(line.start, line.end, key.pos)
+                && !event.drop.iter().flatten().any(|l| l == line_index)
+                && !intersections.contains(line_index)
+            {
+                intersections.push(*line_index);
+            }
+        }
+        if !intersections.is_empty() {
+            intersections.sort_unstable();
+            event.intersection = Some(intersections);
+        }
+    }
+
+    /// Returns true if some of the lines starting at this event also ends at the same point.
+    fn contains_identical_lines(&self, event: &SiteEvent) -> bool {
+        event.add.iter().flatten().enumerate().any(|(i, a)| {
+            event
+                .add
+                .iter()
+                .flatten()
+                .skip(i + 1)
+                .any(|b| self.lines[*a].end == self.lines[*b].end)
+        })
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn handle_event(
         &mut self,
@@ -636,8 +682,8 @@ impl<T: GenericVector2> IntersectionData<T> {
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
         if self.ignore_end_point_intersections {
             // only report end point intersections if they collide with
-            // a calculated intersection point
-            if intersections_found > 0 {
+            // a calculated intersection point, or if two lines are identical
+            if intersections_found > 0 || self.contains_identical_lines(event) {
                 if removed_active_lines > 0 {
                     self.report_intersections_to_result(
                         result,
-- 
2.43.0


From 7341b0f3444e0f168591cdee381ab6aa75c66cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 11/16] fix: approximate equality overlooked short segments of
 the opposite direction

---
 src/linestring_2d/impls.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/linestring_2d/impls.rs b/src/linestring_2d/impls.rs
index b451748..1b8c029 100644
--- a/src/linestring_2d/impls.rs
+++ b/src/linestring_2d/impls.rs
@@ -201,17 +201,14 @@ impl<T: GenericVector2> AbsDiffEq for Line2<T> {
     }
 
     fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
-        if T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
+        (T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
             && T::Scalar::abs_diff_eq(&self.start.y(), &other.start.y(), epsilon)
-        {
-            T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon)
-        } else {
-            T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon))
+            || (T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.start.y(), &other.end.y(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.end.x(), &other.start.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon)
-        }
+                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon))
     }
 }
 
@@ -221,17 +218,14 @@ impl<T: GenericVector2> UlpsEq for Line2<T> {
     }
 
     fn ulps_eq(&self, other: &Self, epsilon: Self::Epsilon, max_ulps: u32) -> bool {
-        if T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
+        (T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
             && T::Scalar::ulps_eq(&self.start.y(), &other.start.y(), epsilon, max_ulps)
-        {
-            T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps)
-        } else {
-            T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps))
+            || (T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.start.y(), &other.end.y(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.end.x(), &other.start.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps)
-        }
+                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps))
     }
 }
 
-- 
2.43.0


From a7ed4f4ac1ebff123cbcac1608a3473f565a5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 12/16] fix: lines added by a second call to
 with_lines()/with_edges() got the indices of the first ones

---
 src/linestring_2d/indexed_intersection.rs | 4 +++-
 src/linestring_2d/intersection.rs         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 950dd25..ec8cf2b 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -507,7 +507,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        for aline in input_iter {
+            // edges may already have been added by an earlier call
+            let index = self.lines.len();
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 89279dc..970a2e6 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -464,7 +464,9 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        for mut aline in input_iter {
+            // lines may already have been added by an earlier call
+            let index = self.lines.len();
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0


From 7e58c9caa3a5a5336bdf1536b6a5ebf7cd027d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 13/16] fix: a line without length stayed active until the end
 of the sweep and was counted twice

---
 src/linestring_2d/indexed_intersection.rs | 18 ++++++++++--------
 src/linestring_2d/intersection.rs         | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index ec8cf2b..6c7b606 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -550,14 +550,16 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 index: Some(end_index),
             };
 
-            // start points goes into the site_event::add list
-            if let Some(event) = site_events.get_mut(&key_start) {
-                let mut lower = event.add.take().map_or(Vec::<usize>::default(), identity);
-                lower.push(index);
-                event.add = Some(lower);
-            } else {
-                let event = SiteEvent::with_add(&[index]);
-                let _ = site_events.insert(key_start, event);
+            // start points goes into the site_event::add list, lines without length are never active
+            if key_start != key_end {
+                if let Some(event) = site_events.get_mut(&key_start) {
+                    let mut lower = event.add.take().map_or(Vec::<usize>::default(), identity);
+                    lower.push(index);
+                    event.add = Some(lower);
+                } else {
+                    let event = SiteEvent::with_add(&[index]);
+                    let _ = site_events.insert(key_start, event);
+                }
             }
 
             // end points goes into the site_event::drop list
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 970a2e6..75285f7 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -488,14 +488,16 @@ impl<T: GenericVector2> IntersectionData<T> {
             let key_start = SiteEventKey::new(aline.start);
             let key_end = SiteEventKey::new(aline.end);
 
-            // start points goes into the site_event::add list
-            if let Some(event) = site_events.get_mut(&key_start) {
-                let mut lower = event.add.take().map_or(Vec::<usize>::new(), identity);
-                lower.push(index);
-                event.add = Some(lower);
-            } else {
-                let event = SiteEvent::with_add(&[index]);
-                let _ = site_events.insert(key_start, event);
+            // start points goes into the site_event::add list, lines without length are never active
+            if key_start != key_end {
+                if let Some(event) = site_events.get_mut(&key_start) {
+                    let mut lower = event.add.take().map_or(Vec::<usize>::new(), identity);
+                    lower.push(index);
+                    event.add = Some(lower);
+                } else {
+                    let event = SiteEvent::with_add(&[index]);
+                    let _ = site_events.insert(key_start, event);
+                }
             }
 
             // end points goes into the site_event::drop list
-- 
2.43.0


From 57bcaa8bfaafa1ce36cdb0eaa45a817a2f4a5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 14/16] fix: graham_scan() and gift_wrap() lost the only point
 of a single point cloud

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 8cb941a..c1a9d7d 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -270,7 +270,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
@@ -518,7 +518,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
@@ -613,7 +613,7 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-- 
2.43.0


From 8e3db4189ce814e51340abffd60ca4a05cc13f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:08 +0000
Subject: [PATCH 15/16] fix: contains_point_inclusive() took the whole line
 through a two point loop, and everything for a one point loop, for inside

---
 src/linestring_2d/convex_hull.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index c1a9d7d..047ccf3 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1380,6 +1380,13 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     } else {
         (&input[..], 0)
     };
+    if slice.len() < 3 {
+        // no area, the loop is only a point or a line segment
+        let (a, b) = (slice[0], slice[slice.len() - 1]);
+        return is_point_left_allow_collinear(a, b, p)
+            && is_point_left_allow_collinear(b, a, p)
+            && (p - a).dot(p - b) <= T::Scalar::ZERO;
+    }
     let mut retain_index_0 = false;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
-- 
2.43.0


From 68186c4f283818a4729e31bdb58090adf34b3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 16/16] fix: convex hulls of points with NaN or infinite
 coordinates are errors, as documented

---
 src/linestring_2d/convex_hull.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 047ccf3..5ab9b3e 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -48,7 +48,11 @@ use crate::{linestring_2d::LineString2, LinestringError};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::real::Real, GenericScalar, GenericVector2};
+use vector_traits::{
+    approx::ulps_eq,
+    num_traits::{float::FloatCore, real::Real},
+    GenericScalar, GenericVector2,
+};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -69,6 +73,20 @@ impl Orientation {
     }
 }
 
+/// returns an error if any of the points has a NaN or infinite component
+fn check_finite<T: GenericVector2>(
+    mut points: impl Iterator<Item = T>,
+) -> Result<(), LinestringError> {
+    match points.find(|p| !(p.x().is_finite() && p.y().is_finite())) {
+        Some(p) => Err(LinestringError::InvalidData(format!(
+            "Some of the points are not finite ({},{})",
+            p.x(),
+            p.y()
+        ))),
+        None => Ok(()),
+    }
+}
+
 /// finds the point with lowest x, if x is equal -> find the point with lowest y value
 fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), LinestringError> {
     if vertices.is_empty() {
@@ -76,6 +94,7 @@ fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), Linest
             "No points to compare".to_string(),
         ));
     }
+    check_finite(vertices.iter().copied())?;
 
     let mut min_idx = 0;
     let mut min_val = vertices[0];
@@ -123,6 +142,7 @@ fn indexed_find_lowest_x<T: GenericVector2>(
             "No points to compare".to_string(),
         ));
     }
+    check_finite(indices.iter().map(|index| vertices[*index]))?;
 
     let mut min_idx_idx = 0;
     let mut min_val = vertices[indices[min_idx_idx]];
-- 
2.43.0


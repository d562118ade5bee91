From c67757c073e27822387701dc1d6b8ecd96e82308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 01/16] fix: KDTree::insert rejects duplicates of points that
 already have a right branch

The duplicate check only ran when the branch a point would go to was empty, so
re-inserting a point whose node had a right child stored it a second time.
---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..bc07a93 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,10 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
-        if let Some(branch_exists) = branch_to_use.as_mut() {
-            return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
+        if verify_equals && self.internal_data == data {
             return false;
+        } else if let Some(branch_exists) = branch_to_use.as_mut() {
+            return branch_exists.insert(data, depth + 1);
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From 9fd8e3189327f078911758afdd1a4adebe7f067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 02/16] fix: graham_scan sorts the downsampled points even when
 the input was sorted

downsample_point_cloud_voxel returns its points in an unspecified order, so
graham_scan(points, true, Some(voxel_size)) scanned unsorted points and returned
a different, non-convex hull on every call.
---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..5a67675 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling never guarantees any order, so the result has to be sorted either way
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 952ae6e88c87aaebc71f7c6ea5b4d31cb67bef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 03/16] fix: icp only builds the KD tree when it was asked to

then_some() evaluates its argument eagerly, so the tree was built (and its
panics and recursion were paid for) even with use_kd_tree disabled.
---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..8773cdd 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -175,7 +175,7 @@ where
     }
 
     let mut points_to_transform = points_a.to_vec();
-    let target_points_tree = config.use_kd_tree.then_some(KDTree::from(points_b));
+    let target_points_tree = config.use_kd_tree.then(|| KDTree::from(points_b));
     let mut current_transform = Isometry::identity();
     let mut current_mse = <T as Bounded>::max_value();
 
-- 
2.43.0


From 6aeeccd0ba1b8861e339af0327c072a0f7d422a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 04/16] fix: calculate_haversine_distance no longer returns NaN
 for antipodal points

---
 crates/mapping-algorithms/src/geo/haversine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..8830967 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -62,8 +62,10 @@ where
     let lat1_radians = point_a.x.to_radians();
     let lat2_radians = point_b.x.to_radians();
 
-    let basic_haversine = half_angle_sine_squared(delta_lat)
-        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos();
+    // Rounding may push this slightly above one for antipodal points, making the root below NaN
+    let basic_haversine = (half_angle_sine_squared(delta_lat)
+        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos())
+    .min(T::one());
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From 01af4a69b8b263cba888483aa1004360ed766aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 05/16] fix: the 2D ICP transform update handles exact half
 turns

UnitComplex::from_matrix stops at the identity for a rotation by exactly 180
degrees, leaving the rotation out while the translation accounted for it.
---
 crates/mapping-algorithms/src/types/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..6eeacdf 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation2, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +70,11 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The iterative `from_matrix` mistakes an exact half turn for the identity
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&Rotation2::from_matrix_unchecked(rotation)),
+        ) * old_transform
     }
 }
 
-- 
2.43.0


From 004d1e8c55d347dc383626f0220fa8894d7205a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 06/16] fix: hull determinants no longer overflow the point
 type

Differences and products were taken in the point type, so unsigned points
panicked (or wrapped, with overflow checks off) on any descending coordinate and
narrow signed points on ordinary products. They are now taken in the precision
of the calculations, with differences still exact where the type can hold them.
---
 crates/mapping-algorithms/src/polygons/mod.rs | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..f6c4427 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -26,7 +26,7 @@ pub use jarvis_march::jarvis_march;
 pub use point_in_polygon::{are_multiple_points_in_polygon, is_single_point_in_polygon};
 
 use nalgebra::{ComplexField, Point, Point2, RealField, Scalar};
-use num_traits::{AsPrimitive, Bounded, NumOps};
+use num_traits::{AsPrimitive, Bounded, NumOps, Zero};
 
 use crate::{array, ops::RangeInclusive, types::PolygonExtents};
 
@@ -90,15 +90,30 @@ where
     Some(extents_accumulator)
 }
 
-fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitive<O>>(
-    point_a: &Point2<T>,
-    point_b: &Point2<T>,
-    point_c: &Point2<T>,
-) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+// Calculates `a - b` in the precision of the calculations, as the difference might not be representable in `T`.
+fn calculate_difference<O, T>(a: T, b: T) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumOps + PartialOrd + Zero,
+{
+    if (a < T::zero()) != (b < T::zero()) {
+        a.as_() - b.as_()
+    } else if a < b {
+        -(b - a).as_()
+    } else {
+        (a - b).as_()
+    }
+}
+
+fn calculate_determinant<O, T>(point_a: &Point2<T>, point_b: &Point2<T>, point_c: &Point2<T>) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumOps + PartialOrd + Scalar + Zero,
+{
+    calculate_difference::<O, T>(point_b.y, point_a.y)
+        * calculate_difference::<O, T>(point_c.x, point_b.x)
+        - calculate_difference::<O, T>(point_b.x, point_a.x)
+            * calculate_difference::<O, T>(point_c.y, point_b.y)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5ee5c4f3227494a1d11db94c5c7835eaafb9bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 07/16] fix: jarvis_march no longer turns back along an edge
 with collinear points

From a vertex in the middle of an edge, a point behind it on the same edge could
be picked as the endpoint and hide the one ahead, so ordinary inputs such as
[(1,0), (2,0), (0,0), (1,1)] or [(1,1), (2,2), (0,0)] looped forever while the
hull grew without bound. 180 degree turns are now ruled out, as documented.
---
 .../src/polygons/jarvis_march.rs              | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..a09b8c3 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -26,7 +26,26 @@ use num_traits::{real::Real, AsPrimitive, NumAssign};
 
 use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
-use super::calculate_determinant;
+use super::{calculate_determinant, calculate_difference};
+
+// Whether going on to `point` would be a 180 degree turn, back along the segment that led to the current vertex.
+fn is_turning_back<O, T>(
+    previous_vertex: &Point2<T>,
+    current_vertex: &Point2<T>,
+    point: &Point2<T>,
+) -> bool
+where
+    O: ComplexField + Copy + PartialOrd,
+    T: AsPrimitive<O> + NumAssign + PartialOrd + Scalar,
+{
+    let direction = (0..2).fold(O::zero(), |acc, idx| {
+        acc + calculate_difference::<O, T>(current_vertex[idx], previous_vertex[idx])
+            * calculate_difference::<O, T>(point[idx], current_vertex[idx])
+    });
+
+    direction < O::zero()
+        && calculate_determinant::<O, T>(previous_vertex, current_vertex, point) == O::zero()
+}
 
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
@@ -77,8 +96,15 @@ where
     let mut hull = Vec::with_capacity(points_downsampled_slice.len());
     loop {
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+        let previous_vertex = hull.len().checked_sub(2).map(|idx| &hull[idx]);
+        let mut endpoint = current_vertex;
         for point in points_downsampled_slice {
+            if previous_vertex
+                .is_some_and(|previous| is_turning_back(previous, current_vertex, point))
+            {
+                continue;
+            }
+
             if endpoint == current_vertex
                 || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
             {
@@ -86,6 +112,11 @@ where
             }
         }
 
+        // The only way out is the way back, meaning all points are collinear
+        if endpoint == current_vertex {
+            return None;
+        }
+
         current_vertex = endpoint;
 
         if current_vertex == &hull[0] {
-- 
2.43.0


From 73e0fe9ca7bc0776a4ea74789d8376b588d5c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 08/16] fix: jarvis_march terminates when rounding leads back
 to a vertex other than the first

With nearly collinear floating point input the march could enter a cycle that
never revisits the starting vertex, growing the hull until memory ran out.
---
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index a09b8c3..555511c 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -119,7 +119,8 @@ where
 
         current_vertex = endpoint;
 
-        if current_vertex == &hull[0] {
+        // Normally the first vertex, but rounding errors may lead back to any other one
+        if hull.contains(current_vertex) {
             break;
         }
     }
-- 
2.43.0


From f6d6ea722832b010f983d9dbdbc3d440438376ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 09/16] fix: plot_bresenham_line takes a fixed number of steps

Comparing the accumulated position with the end point lost or added a cell when
the additions rounded, and never terminated once a step of one was smaller than
the precision of the type, growing the result without bound.
---
 crates/mapping-algorithms/src/lines/bresenham.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index e8b737b..70712df 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -72,12 +72,9 @@ where
 
     let mut current_point = start_point;
     let mut errors = Vec::from([F::zero(); N]);
-    let mut points = Vec::with_capacity(<F as AsPrimitive<usize>>::as_(
-        deltas[primary_axis] + F::one(),
-    ));
-    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
-        >= F::one()
-    {
+    let num_steps = <F as AsPrimitive<usize>>::as_(deltas[primary_axis]);
+    let mut points = Vec::with_capacity(num_steps + 1);
+    for _ in 0..num_steps {
         points.push(current_point.map(|element| element.as_()));
 
         for axis in 0..N {
-- 
2.43.0


From 3d731874f78da239f66fc47ee895c5eca56e103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 10/16] fix: icp rejects a NaN MSE interval threshold

The absolute threshold was checked for NaN but the interval was not, which
silently disabled convergence.
---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 8773cdd..3414bbc 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From 3716fc22f87bde286dbe94b64061507ca0b22ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 11/16] fix: rays from left of a polygon edge cross it whatever
 the rounding

---
 crates/mapping-algorithms/src/polygons/point_in_polygon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
index 9994d9f..4436ae8 100644
--- a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
+++ b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
@@ -53,7 +53,8 @@ where
             })
             .unwrap_or(point.x);
 
-        if vertex1.x == vertex2.x || point.x <= origin_x {
+        // Left of the whole edge the ray crosses it, whatever origin_x was rounded to.
+        if point.x <= vertex1.x.min(vertex2.x) || point.x <= origin_x {
             return true;
         }
     }
-- 
2.43.0


From f38733e465f4dfe2fee2d3a177121d622f1beabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 12/16] fix: point in polygon does not depend on the direction
 of an edge

---
 crates/mapping-algorithms/src/polygons/point_in_polygon.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
index 4436ae8..01593e4 100644
--- a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
+++ b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
@@ -46,6 +46,12 @@ where
         && point.y <= vertex1.y.max(vertex2.y)
         && point.x <= vertex1.x.max(vertex2.x)
     {
+        // Always evaluated from the lower vertex, so that the direction of the edge does not affect the rounding.
+        let (vertex1, vertex2) = if vertex1.y <= vertex2.y {
+            (vertex1, vertex2)
+        } else {
+            (vertex2, vertex1)
+        };
         let origin_x = (vertex1.y != vertex2.y)
             .then(|| {
                 (point.y - vertex1.y) * (vertex2.x - vertex1.x) / (vertex2.y - vertex1.y)
-- 
2.43.0


From a2ece0a6724828321b464ee3d9fa53aaa157614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 13/16] fix: plot_bresenham_line accumulates the error without
 rounding

---
 crates/mapping-algorithms/src/lines/bresenham.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index 70712df..6537b99 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -82,11 +82,14 @@ where
                 continue;
             }
 
-            errors[axis] += deltas[axis] / deltas[primary_axis];
+            // In units of the primary delta, so that nothing is rounded for whole-number endpoints.
+            let error_after_step = errors[axis] + (deltas[axis] - deltas[primary_axis]);
 
-            if errors[axis] >= F::one() - (F::one() / (N + 1).as_()) {
+            if error_after_step >= -(deltas[primary_axis] / (N + 1).as_()) {
                 current_point[axis] += steps[axis];
-                errors[axis] -= F::one();
+                errors[axis] = error_after_step;
+            } else {
+                errors[axis] += deltas[axis];
             }
         }
 
-- 
2.43.0


From 7d199d1c7e15a0c1dd6bc8ae19f8c805794ebf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:00 +0000
Subject: [PATCH 14/16] fix: 3D alignment step returns for every half turn

UnitQuaternion::from_matrix perturbs a stuck iteration without end for some
half turns (for instance collinear or mirrored planar clouds); the closed
form conversion always returns.
---
 crates/mapping-algorithms/src/types/isometry.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index 6eeacdf..67a132f 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,8 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, Rotation2, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation2, Rotation3, SMatrix, UnitComplex,
+    UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -98,7 +99,11 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The iterative `from_matrix` never returns for some half turns
+        let mut rotation =
+            Self::RotType::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rotation));
+        rotation.renormalize();
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
-- 
2.43.0


From fcadb5c795f997e1611654477dec02c0da4f45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 15/16] fix: 3D alignment step neither overflows nor underflows
 in its SVD

---
 crates/mapping-algorithms/src/types/isometry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index 67a132f..c3b8b6f 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -95,6 +95,13 @@ where
         mean_b: Point<T, 3>,
         rot_mat: &SMatrix<T, 3, 3>,
     ) -> Isometry<T, Self::RotType, 3> {
+        // The 3x3 SVD works on squares, which must neither overflow nor vanish
+        let scale = rot_mat.amax();
+        let rot_mat = if scale > T::zero() {
+            rot_mat.unscale(scale)
+        } else {
+            *rot_mat
+        };
         let svd = rot_mat.svd(true, true);
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
-- 
2.43.0


From df422e160ab3df0e4e0ec7a22cb6959ac4179042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 16/16] fix: hull modules build without the pregenerated
 feature

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 5a67675..7f8fdcb 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -169,7 +169,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 555511c..091a218 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -168,7 +168,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


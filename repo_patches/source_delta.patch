From b94bcaf64d2db36e1be8abcbe292a845684234e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 01/30] hook: verif_api re-exports, compiled only with --cfg
 geos_verif

---
 src/lib.rs       |  4 ++++
 src/verif_api.rs | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)
 create mode 100644 src/verif_api.rs

diff --git a/src/lib.rs b/src/lib.rs
index 910ec52..55f71fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,8 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 mod core;
 mod tests;
+
+#[cfg(geos_verif)]
+pub mod verif_api;
diff --git a/src/verif_api.rs b/src/verif_api.rs
new file mode 100644
index 0000000..1d0b5a0
--- /dev/null
+++ b/src/verif_api.rs
@@ -0,0 +1,36 @@
+/*
+ * Verification hook: re-exports the crate's (otherwise private) modules so that an external
+ * property-based testing harness can drive them.  Compiled only with `--cfg geos_verif`.
+ */
+
+pub use crate::core::algorithm::{
+    angle::Angle, area::Area, centroid::Centroid, cg_algorithms_3d::CGAlgorithms3D,
+    cg_algorithms_dd::CGAlgorithmsDD, distance::Distance, hcoordinate::HCoordinate,
+    intersection::Intersection, length::Length, line_intersector::LineIntersector,
+    orientation::Orientation, point_location::PointLocation,
+    ray_crossing_counter::RayCrossingCounter, robust_line_intersector::RobustLineIntersector,
+};
+pub use crate::core::geom::implementation::{
+    coordinate_array_sequence::CoordinateArraySequence,
+    coordinate_array_sequence_factory::CoordinateArraySequenceFactory,
+    packed_coordinate_sequence::PackedCoordinateSequence,
+    packed_coordinate_sequence_double::PackedCoordinateSequenceDouble,
+    packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory,
+};
+pub use crate::core::geom::{
+    coordinate::Coordinate, coordinate_array_sequences::CoordinateArraySequences,
+    coordinate_arrays::CoordinateArrays, coordinate_list::CoordinateList,
+    coordinate_sequence_comparator::CoordinateSequenceComparator, coordinates::Coordinates,
+    dimension::Dimension, envelope::Envelope, geometry::Geometry,
+    geometry_factory::GeometryFactory, intersection_matrix::IntersectionMatrix,
+    line_segment::LineSegment, line_string::LineString, linear_ring::LinearRing,
+    location::Location, multi_line_string::MultiLineString, multi_point::MultiPoint,
+    multi_polygon::MultiPolygon, octagonal_envelope::OctagonalEnvelope,
+    packed_coordinate_sequences::PackedCoordinateSequences, point::Point, polygon::Polygon,
+    position::Position, precision_model::PrecisionModel, precision_model::PrecisionModelType,
+    quadrant::Quadrant, triangle::Triangle,
+};
+pub use crate::core::math::{
+    dd::DD, matrix::Matrix, vector_2d::Vector2D, vector_3d::Vector3D,
+};
+pub use crate::core::util::{math_util::MathUtil, number_util::NumberUtil};
-- 
2.43.0


From 50fbcd0a46ed71d1271a970ca609a8ab8c665222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 02/30] fix: Matrix::solve no longer underflows its loop
 counters

---
 src/core/math/matrix.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..641b9a1 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,8 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
+                for k in (i..n).rev() {
                     a[j][k] -= a[i][k] * row_factor;
-                    k -= 1;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +84,7 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        for j in (0..n).rev() {
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +92,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From 334f392180737eb69a703b4e6357bb5746ab832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 03/30] fix: MathUtil::shuffle no longer indexes an empty
 vector

---
 src/core/util/math_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..c52468c 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,10 +189,10 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
+        let mut i = n.saturating_sub(1);
         while i >= 1 {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
-- 
2.43.0


From e896b44ca16317096a4c3245f0813e67e0528b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 04/30] fix: DD::magnitude handles values below 1 and above i32
 range

---
 src/core/math/dd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..1bce00a 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1349,8 +1349,8 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10.0, x_mag);
+        if x_approx * 10.0 <= x_abs {
             x_mag += 1;
         }
 
-- 
2.43.0


From e30001f972ba684432aa05752843b221b59b9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 05/30] fix: DD::floor and DD::ceil return a normalized value

---
 src/core/math/dd.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 1bce00a..b1e4797 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -687,8 +687,12 @@ impl DD {
         if fhi == self.hi {
             flo = f64::floor(self.lo);
         }
-        // do we need to renormalize here?
-        return DD::new_hi_lo(fhi, flo);
+        if flo == 0.0 {
+            return DD::new_hi_lo(fhi, flo);
+        }
+        // renormalize, since the floor of the low word can be as large as the ulp of the high word
+        let zhi = fhi + flo;
+        return DD::new_hi_lo(zhi, flo - (zhi - fhi));
     }
 
     /**
@@ -711,9 +715,13 @@ impl DD {
         // Hi is already integral.  Ceil the low word
         if fhi == self.hi {
             flo = f64::ceil(self.lo);
-            // do we need to renormalize here?
         }
-        return DD::new_hi_lo(fhi, flo);
+        if flo == 0.0 {
+            return DD::new_hi_lo(fhi, flo);
+        }
+        // renormalize, since the ceiling of the low word can be as large as the ulp of the high word
+        let zhi = fhi + flo;
+        return DD::new_hi_lo(zhi, flo - (zhi - fhi));
     }
 
     /**
-- 
2.43.0


From 1598f201cde3e4f3a11ed2878312f4e02aee9bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 06/30] fix: DD::rint does not modify its receiver

---
 src/core/math/dd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index b1e4797..46ae26a 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -761,13 +761,12 @@ impl DD {
      *
      * @return this value rounded to the nearest integer
      */
-    pub fn rint(&mut self) -> DD {
+    pub fn rint(&self) -> DD {
         if self.is_nan() {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 6e299af9ba3e2ba0b280bdac35f4cdc7a64ba530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:37 +0000
Subject: [PATCH 07/30] fix: DD::pow accepts the minimum integer exponent

---
 src/core/math/dd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 46ae26a..3e4527c 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -896,7 +896,7 @@ impl DD {
 
         let mut r = DD::new_from_dd(self);
         let mut s = DD::value_of_f64(1.0);
-        let mut n = i32::abs(exp);
+        let mut n = exp.unsigned_abs();
 
         if n > 1 {
             /* Use binary exponentiation */
-- 
2.43.0


From 63b57dd20f54c1b76a8638252d59dfe224421bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 08/30] fix: floating PrecisionModels compare equal to each
 other

---
 src/core/geom/precision_model.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..7c4ef94 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -86,8 +86,8 @@ impl PrecisionModel {
         Self {
             // default is floating precision
             model_type: PrecisionModelType::Floating,
-            scale: f64::NAN,
-            grid_size: f64::NAN,
+            scale: 0.0,
+            grid_size: 0.0,
         }
     }
 
@@ -101,8 +101,8 @@ impl PrecisionModel {
     pub fn new_with_type(model_type: PrecisionModelType) -> Self {
         let mut new = Self {
             model_type,
-            scale: f64::NAN,
-            grid_size: f64::NAN,
+            scale: 0.0,
+            grid_size: 0.0,
         };
 
         if model_type == PrecisionModelType::Fixed {
@@ -125,8 +125,8 @@ impl PrecisionModel {
     pub fn new_with_scale(scale: f64) -> Self {
         let mut new = Self {
             model_type: PrecisionModelType::Fixed,
-            scale: f64::NAN,
-            grid_size: f64::NAN,
+            scale: 0.0,
+            grid_size: 0.0,
         };
         new.set_scale(scale);
         new
-- 
2.43.0


From 722c70addc95f6a16c31ec69f333959597805ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 09/30] fix: FloatingSingle PrecisionModel rounds to single
 precision

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 7c4ef94..7bcdcc7 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From 08bed25c01f761ebcb9d7d5c3395c1cc6e45a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 10/30] fix: fixed PrecisionModel rounds ties upwards
 everywhere on the number line

---
 src/core/geom/precision_model.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 7bcdcc7..4f54b1c 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,26 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  /**
+   * Rounds to the nearest integer, with ties rounding towards positive infinity
+   * (Asymmetric Arithmetic Rounding).
+   */
+  fn round_half_up(val: f64) -> f64 {
+    let floor = f64::floor(val);
+    if val - floor >= 0.5 { return floor + 1.0; }
+    return floor;
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From 5dcaf6d6fb887b839bbef24c779033f3b8259f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 11/30] fix: CGAlgorithms3D::distance_segment_segment handles a
 degenerate second segment

---
 src/core/algorithm/cg_algorithms_3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..ec16d50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
-- 
2.43.0


From 6743735981a8a1194f844193d4fda72fbac1d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 12/30] fix: CGAlgorithms3D::distance_segment_segment considers
 every endpoint

---
 src/core/algorithm/cg_algorithms_3d.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index ec16d50..a98da50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -131,14 +131,13 @@ impl CGAlgorithms3D {
             s = (b * e - c * d) / denom;
             t = (a * e - b * d) / denom;
         }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+        if s < 0. || s > 1. || t < 0. || t > 1. {
+            // at least one of the closest points is a segment endpoint
+            let dist_a = CGAlgorithms3D::distance_point_segment(ac, cc, dd);
+            let dist_b = CGAlgorithms3D::distance_point_segment(bc, cc, dd);
+            let dist_c = CGAlgorithms3D::distance_point_segment(cc, ac, bc);
+            let dist_d = CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+            return dist_a.min(dist_b).min(dist_c).min(dist_d);
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From d3dff1650db4261b4614a25ea93f4ab22f4a4ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 13/30] fix: ring orientation of an empty ring is the
 documented default

---
 src/core/algorithm/orientation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..f2b85a8 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,7 +125,7 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
+        let n_pts = ring.size().saturating_sub(1);
         // return default value if ring is flat
         if n_pts < 3 {
             return false;
-- 
2.43.0


From 810e7d8b8e8718ad27ca427ba50b193f7cf03538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 14/30] fix: Centroid of empty lines and rings does not
 underflow

---
 src/core/algorithm/centroid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
-- 
2.43.0


From 4b2cec6b188caf4d24276e936e8f112f1d3fcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 15/30] fix: CoordinateArraySequence ordinate access reaches
 the measure value

---
 .../geom/implementation/coordinate_array_sequence.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..94e49e7 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -257,6 +257,14 @@ impl CoordinateArraySequence {
         return self.get_measures() > 0;
     }
 
+    /**
+     * Tests whether an ordinate index denotes the measure (M) value,
+     * which follows the spatial ordinates.
+     */
+    fn is_measure_ordinate(&self, ordinate_index: i32) -> bool {
+        return self.has_m() && ordinate_index == self.get_dimension() - self.get_measures();
+    }
+
     /**
      * @see org.locationtech.jts.geom.CoordinateSequence#getZ(int)
      */
@@ -286,6 +294,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
+            _ if self.is_measure_ordinate(ordinate_index) => return self.coordinates[index].get_m(),
             _ => {
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
@@ -330,6 +339,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
+            _ if self.is_measure_ordinate(ordinate_index) => self.coordinates[index].set_m(value),
             _ => self.coordinates[index].set_ordinate(ordinate_index, value),
         }
     }
-- 
2.43.0


From 657567e2be60b4c3c05ce88b3e43fe7298e2c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 16/30] fix: closing or extending a sequence keeps its measures

---
 src/core/geom/coordinate_array_sequences.rs  | 14 ++++++++++----
 src/core/geom/packed_coordinate_sequences.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..e045798 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -155,8 +155,11 @@ impl CoordinateArraySequences {
         seq: &CoordinateArraySequence,
         size: usize,
     ) -> CoordinateArraySequence {
-        let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+        let mut newseq = CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+            size,
+            seq.get_dimension(),
+            seq.get_measures(),
+        );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -167,8 +170,11 @@ impl CoordinateArraySequences {
     }
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
-        let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+        let mut newseq = CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+            size,
+            seq.get_dimension(),
+            seq.get_measures(),
+        );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..d572509 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -157,8 +157,11 @@ impl PackedCoordinateSequences {
         seq: &PackedCoordinateSequenceDouble,
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
-        let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+        let mut newseq = PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+            size,
+            seq.get_dimension(),
+            seq.get_measures(),
+        );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -172,8 +175,11 @@ impl PackedCoordinateSequences {
         seq: &PackedCoordinateSequenceDouble,
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
-        let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+        let mut newseq = PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+            size,
+            seq.get_dimension(),
+            seq.get_measures(),
+        );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From 6683a94fd8d5822c53f859527c1589d18c4a93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 17/30] fix: packed sequences can be created from coordinates

---
 .../packed_coordinate_sequence_double.rs      | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..3358457 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -83,7 +83,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures: i32::max(0, dimension - 3),
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -91,11 +91,15 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
+                new.coords[offset + 2] = if dimension - new.measures > 2 {
+                    coordinates[i].get_z()
+                } else {
+                    coordinates[i].get_m()
+                };
                 // Z or M
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
@@ -118,7 +122,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -126,11 +130,15 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
+                new.coords[offset + 2] = if dimension - new.measures > 2 {
+                    coordinates[i].get_z()
+                } else {
+                    coordinates[i].get_m()
+                };
                 // Z or M
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
@@ -147,7 +155,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension: 3,
             measures: 0,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * 3],
         };
 
         for i in 0..coordinates.len() {
@@ -155,11 +163,15 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if new.dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
+                new.coords[offset + 2] = if new.dimension - new.measures > 2 {
+                    coordinates[i].get_z()
+                } else {
+                    coordinates[i].get_m()
+                };
                 // Z or M
             }
             if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
-- 
2.43.0


From 1ad5d9eab6c2e5e2ce011a5e2ba0523d09bddd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 18/30] fix: CoordinateArrays::enforce_consistency keeps
 measures

---
 src/core/geom/coordinate_arrays.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..3594123 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -90,6 +90,10 @@ impl CoordinateArrays {
                 let coordinate = array[i];
                 let mut duplicate = Coordinates::create_dim_measures(max_dimension, max_measures);
                 duplicate.set_coordinate(&coordinate);
+                // set_coordinate copies only x, y and z
+                if !f64::is_nan(coordinate.get_m()) {
+                    duplicate.set_m(coordinate.get_m());
+                }
                 array[i] = duplicate;
             }
         }
@@ -117,6 +121,13 @@ impl CoordinateArrays {
             let coordinate = array[i];
             let mut duplicate = Coordinates::create_dim_measures(dimension, measures);
             duplicate.set_coordinate(&coordinate);
+            // set_coordinate copies x, y and z only, whatever the wanted structure is
+            if dimension - measures < 3 {
+                duplicate.set_z(Coordinate::NULL_ORDINATE);
+            }
+            if measures > 0 && !f64::is_nan(coordinate.get_m()) {
+                duplicate.set_m(coordinate.get_m());
+            }
             copy[i] = duplicate;
         }
         return copy;
-- 
2.43.0


From b4e3e5ae7da839c1b36babc17e83b4bfe78c0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 19/30] fix: CoordinateArrays::extract returns the requested
 section

---
 src/core/geom/coordinate_arrays.rs | 33 +++++-------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 3594123..a61d26a 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,5 +1,3 @@
-use crate::core::util::math_util::MathUtil;
-
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
 
@@ -674,33 +672,12 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
-        let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
-            return extract_pts;
-        }
-
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
+        if end < start || start >= pts.len() {
+            return vec![];
         }
-        return extract_pts;
+        let last = usize::min(end, pts.len() - 1);
+        return pts[start..=last].to_vec();
     }
 
     /**
-- 
2.43.0


From 5e21569206f05db7549bb2096e8be676438772d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 20/30] fix: CoordinateArrays invalid-point test considers the
 first point

---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index a61d26a..7f6ade9 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -411,11 +411,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From 0356a968dbfd6c0b25e4b27a6a70ffb1b4285794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 21/30] fix: CoordinateList can add coordinates in reverse
 order

---
 src/core/geom/coordinate_list.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..ed8ed0c 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,16 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
+        let forward = start <= end;
 
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if forward {
+                i += 1;
+            } else {
+                i -= 1;
+            }
         }
         return true;
     }
@@ -94,11 +95,8 @@ impl CoordinateList {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         } else {
-            let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
+            for i in (0..coord_list.len()).rev() {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
-                i -= 1;
             }
         }
         return true;
-- 
2.43.0


From e0c5e8c52d9adf3a46d5acb9cbe77c0876539b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 22/30] fix: OctagonalEnvelope handles null envelopes

---
 src/core/geom/octagonal_envelope.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..2d42b6a 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
@@ -309,6 +312,10 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
+
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From 8d43d1eacfe6c3ee8f439a8925342bad28ecb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 23/30] fix: LineSegment::closest_points returns a pair for
 intersecting segments

---
 src/core/geom/line_segment.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index c8003a4..1c5aa43 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -547,10 +547,8 @@ impl LineSegment {
         // test for intersection
         let int_pt = self.intersection(line);
         if int_pt.is_some() {
-            return vec![Coordinate::new_xy(
-                int_pt.unwrap().get_x(),
-                int_pt.unwrap().get_y(),
-            )];
+            let pt = Coordinate::new_xy(int_pt.unwrap().get_x(), int_pt.unwrap().get_y());
+            return vec![pt, pt];
         }
 
         //  if no intersection closest pair contains at least one endpoint.
-- 
2.43.0


From 16513f8b547811080005d9e1ee45db89d7cb78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 24/30] fix: Polygon normalization changes the polygon

---
 src/core/geom/polygon.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..619806b 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -358,7 +358,7 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
-        // Arrays.sort(holes);
+        self.holes.sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
     }
 
     pub fn compare_to(&self, poly: &Polygon) -> i32 {
@@ -428,12 +428,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -452,6 +452,8 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        // the sequence is a copy, so the ring has to be rebuilt from it
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From 4fbb3ceea1186d27cc13878f9cb652659f962d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 25/30] fix: copying and reversing composite geometries keeps
 their components

---
 src/core/geom/multi_line_string.rs | 6 +++---
 src/core/geom/multi_point.rs       | 4 ++--
 src/core/geom/multi_polygon.rs     | 4 ++--
 src/core/geom/polygon.rs           | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..4e0f9a3 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,8 +130,8 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in (0..self.line_strings.len()).rev() {
+            line_strings.push(self.line_strings[i].reverse());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
@@ -139,7 +139,7 @@ impl MultiLineString {
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..78c69ac 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,7 +136,7 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
@@ -263,7 +263,7 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..e85cf96 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,7 +205,7 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
@@ -217,7 +217,7 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 619806b..6b245df 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -475,7 +475,7 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
         return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
-- 
2.43.0


From 4fd1eae1454c8683711f567c8571cd43372ab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 26/30] fix: copying and reversing geometries keeps their
 precision model

---
 src/core/geom/multi_line_string.rs | 8 ++++++--
 src/core/geom/multi_point.rs       | 8 ++++++--
 src/core/geom/multi_polygon.rs     | 8 ++++++--
 src/core/geom/point.rs             | 8 ++++++--
 src/core/geom/polygon.rs           | 8 ++++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index 4e0f9a3..6ba0884 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -133,7 +133,9 @@ impl MultiLineString {
         for i in (0..self.line_strings.len()).rev() {
             line_strings.push(self.line_strings[i].reverse());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy_internal(&self) -> MultiLineString {
@@ -141,7 +143,9 @@ impl MultiLineString {
         for i in 0..self.line_strings.len() {
             line_strings.push(self.line_strings[i].copy());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn equals_exact(&self, other: &MultiLineString, tolerance: f64) -> bool {
diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 78c69ac..ad639f1 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -138,7 +138,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -265,7 +267,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index e85cf96..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -207,7 +207,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -219,7 +221,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
diff --git a/src/core/geom/point.rs b/src/core/geom/point.rs
index 8734084..99f3d1e 100644
--- a/src/core/geom/point.rs
+++ b/src/core/geom/point.rs
@@ -237,7 +237,9 @@ impl Point {
     // }
 
     pub fn copy(&self) -> Point {
-        return Point::new_with_coordinate_seq(&self.coordinates.copy());
+        let mut res = Point::new_with_coordinate_seq(&self.coordinates.copy());
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn reverse(&self) -> Point {
@@ -250,7 +252,9 @@ impl Point {
     }
 
     pub fn reverse_internal(&self) -> Point {
-        return Point::new_with_coordinate_seq(&self.coordinates.copy());
+        let mut res = Point::new_with_coordinate_seq(&self.coordinates.copy());
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn compare_to_same_class(&self, other: &Point, comp: &CoordinateSequenceComparator) -> i32 {
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 6b245df..41f4bf4 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut copy = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     // TODO: Implement ME!
@@ -478,7 +480,9 @@ impl Polygon {
             holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0


From 046c916db3376358d97b7f475a290dca3d086d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 27/30] fix: MultiPoint::get_point_at_index accepts every index

---
 src/core/geom/multi_point.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index ad639f1..d24d82e 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -223,10 +223,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
-            return None;
-        }
-        return Some(self.points[index].copy());
+        return self.points.get(index).map(|point| point.copy());
     }
 
     /**
-- 
2.43.0


From 5761e5032515e2aac371e31bbe8afc5954f8a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 28/30] fix: MultiPoint does not count empty points as
 coordinates

---
 src/core/geom/multi_point.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index d24d82e..c1eb16c 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,11 +55,20 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        for i in 0..self.points.len() {
+            if !self.points[i].is_empty() {
+                return false;
+            }
+        }
+        return true;
     }
 
     pub fn get_num_points(&self) -> usize {
-        return self.points.len();
+        let mut num_points = 0;
+        for i in 0..self.points.len() {
+            num_points += self.points[i].get_num_points();
+        }
+        return num_points;
     }
 
     pub fn get_precision_model(&self) -> Option<PrecisionModel> {
-- 
2.43.0


From eeb39faed5af9faf31ed378c1069965210351e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 29/30] fix: the half-plane east of a segment consists of the
 SE and NE quadrants

---
 src/core/geom/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/quadrant.rs b/src/core/geom/quadrant.rs
index 48c71c5..370963b 100644
--- a/src/core/geom/quadrant.rs
+++ b/src/core/geom/quadrant.rs
@@ -125,7 +125,7 @@ impl Quadrant {
      */
     pub fn is_in_half_plane(quad: i32, half_plane: i32) -> bool {
         if half_plane == Quadrant::SE {
-            return quad == Quadrant::SE || quad == Quadrant::SW;
+            return quad == Quadrant::SE || quad == Quadrant::NE;
         }
         return quad == half_plane || quad == half_plane + 1;
     }
-- 
2.43.0


From bac53c8141e3f01f23ac73ebb0e0f28f72798035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:26 +0000
Subject: [PATCH 30/30] fix: copying a packed sequence keeps its measures

---
 src/core/geom/implementation/packed_coordinate_sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence.rs b/src/core/geom/implementation/packed_coordinate_sequence.rs
index e1e0913..3c317a0 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence.rs
@@ -83,9 +83,10 @@ impl PackedCoordinateSequence {
      */
     pub fn copy(&self) -> PackedCoordinateSequenceDouble {
         let clone = self.coords.to_vec();
-        return PackedCoordinateSequenceDouble::new_coordinates_with_dimension(
+        return PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(
             &clone,
             self.get_dimension(),
+            self.get_measures(),
         );
     }
 
-- 
2.43.0


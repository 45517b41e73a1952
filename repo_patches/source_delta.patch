From 0bb713c7f1c7d6e92f733ef35dadbd42a3ac0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 01/34] verif hook: re-export private modules under --cfg
 geos_verif

---
 src/lib.rs | 68 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 910ec52..67fe691 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,72 @@
+#![allow(unexpected_cfgs)]
 #![allow(dead_code)]
 
 mod core;
 mod tests;
+
+/// Re-exports of the crate-private modules, so that the runtime monitors kept
+/// outside this repository can drive and observe the real code.
+/// Compiled only under `--cfg geos_verif`.
+#[cfg(geos_verif)]
+pub mod verif_hooks {
+    pub mod algorithm {
+        pub mod angle { pub use crate::core::algorithm::angle::*; }
+        pub mod area { pub use crate::core::algorithm::area::*; }
+        pub mod centroid { pub use crate::core::algorithm::centroid::*; }
+        pub mod cg_algorithms_3d { pub use crate::core::algorithm::cg_algorithms_3d::*; }
+        pub mod cg_algorithms_dd { pub use crate::core::algorithm::cg_algorithms_dd::*; }
+        pub mod distance { pub use crate::core::algorithm::distance::*; }
+        pub mod hcoordinate { pub use crate::core::algorithm::hcoordinate::*; }
+        pub mod intersection { pub use crate::core::algorithm::intersection::*; }
+        pub mod length { pub use crate::core::algorithm::length::*; }
+        pub mod orientation { pub use crate::core::algorithm::orientation::*; }
+        pub mod point_location { pub use crate::core::algorithm::point_location::*; }
+        pub mod ray_crossing_counter { pub use crate::core::algorithm::ray_crossing_counter::*; }
+        pub mod robust_line_intersector { pub use crate::core::algorithm::robust_line_intersector::*; }
+    }
+    pub mod geom {
+        pub mod coordinate { pub use crate::core::geom::coordinate::*; }
+        pub mod coordinate_array_sequences { pub use crate::core::geom::coordinate_array_sequences::*; }
+        pub mod coordinate_arrays { pub use crate::core::geom::coordinate_arrays::*; }
+        pub mod coordinate_list { pub use crate::core::geom::coordinate_list::*; }
+        pub mod coordinate_sequence_comparator { pub use crate::core::geom::coordinate_sequence_comparator::*; }
+        pub mod coordinates { pub use crate::core::geom::coordinates::*; }
+        pub mod dimension { pub use crate::core::geom::dimension::*; }
+        pub mod envelope { pub use crate::core::geom::envelope::*; }
+        pub mod geometry { pub use crate::core::geom::geometry::*; }
+        pub mod geometry_factory { pub use crate::core::geom::geometry_factory::*; }
+        pub mod implementation {
+            pub mod coordinate_array_sequence { pub use crate::core::geom::implementation::coordinate_array_sequence::*; }
+            pub mod coordinate_array_sequence_factory { pub use crate::core::geom::implementation::coordinate_array_sequence_factory::*; }
+            pub mod packed_coordinate_sequence { pub use crate::core::geom::implementation::packed_coordinate_sequence::*; }
+            pub mod packed_coordinate_sequence_double { pub use crate::core::geom::implementation::packed_coordinate_sequence_double::*; }
+            pub mod packed_coordinate_sequence_factory { pub use crate::core::geom::implementation::packed_coordinate_sequence_factory::*; }
+        }
+        pub mod intersection_matrix { pub use crate::core::geom::intersection_matrix::*; }
+        pub mod line_segment { pub use crate::core::geom::line_segment::*; }
+        pub mod line_string { pub use crate::core::geom::line_string::*; }
+        pub mod linear_ring { pub use crate::core::geom::linear_ring::*; }
+        pub mod location { pub use crate::core::geom::location::*; }
+        pub mod multi_line_string { pub use crate::core::geom::multi_line_string::*; }
+        pub mod multi_point { pub use crate::core::geom::multi_point::*; }
+        pub mod multi_polygon { pub use crate::core::geom::multi_polygon::*; }
+        pub mod octagonal_envelope { pub use crate::core::geom::octagonal_envelope::*; }
+        pub mod packed_coordinate_sequences { pub use crate::core::geom::packed_coordinate_sequences::*; }
+        pub mod point { pub use crate::core::geom::point::*; }
+        pub mod polygon { pub use crate::core::geom::polygon::*; }
+        pub mod position { pub use crate::core::geom::position::*; }
+        pub mod precision_model { pub use crate::core::geom::precision_model::*; }
+        pub mod quadrant { pub use crate::core::geom::quadrant::*; }
+        pub mod triangle { pub use crate::core::geom::triangle::*; }
+    }
+    pub mod math {
+        pub mod dd { pub use crate::core::math::dd::*; }
+        pub mod matrix { pub use crate::core::math::matrix::*; }
+        pub mod vector_2d { pub use crate::core::math::vector_2d::*; }
+        pub mod vector_3d { pub use crate::core::math::vector_3d::*; }
+    }
+    pub mod util {
+        pub mod math_util { pub use crate::core::util::math_util::*; }
+        pub mod number_util { pub use crate::core::util::number_util::*; }
+    }
+}
-- 
2.43.0


From 27009e00ff9f5c73b452870aac32d76fcf315d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 02/34] fix: ring orientation and centroid of an empty
 coordinate list no longer underflow

---
 src/core/algorithm/centroid.rs    | 6 +++---
 src/core/algorithm/orientation.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..f2b85a8 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,7 +125,7 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
+        let n_pts = ring.size().saturating_sub(1);
         // return default value if ring is flat
         if n_pts < 3 {
             return false;
-- 
2.43.0


From c66fbf7611e6baaf687c015055073739a3916965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 03/34] fix: 3D segment distance recognises a zero-length
 second segment

---
 src/core/algorithm/cg_algorithms_3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..ec16d50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
-- 
2.43.0


From 49b62e7f5e6836adedd88d069fbac1bcedc88d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 04/34] fix: 3D segment distance when the closest point is at a
 segment end

---
 src/core/algorithm/cg_algorithms_3d.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index ec16d50..568f114 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -1,4 +1,6 @@
-use crate::core::{geom::coordinate::Coordinate, math::vector_3d::Vector3D};
+use crate::core::{
+    geom::coordinate::Coordinate, math::vector_3d::Vector3D, util::math_util::MathUtil,
+};
 
 /**
  * Basic computational geometry algorithms
@@ -131,14 +133,14 @@ impl CGAlgorithms3D {
             s = (b * e - c * d) / denom;
             t = (a * e - b * d) / denom;
         }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+        if s < 0. || s > 1. || t < 0. || t > 1. {
+            // the closest point of one segment is an endpoint, not necessarily the one s or t is beyond
+            return MathUtil::min(
+                CGAlgorithms3D::distance_point_segment(ac, cc, dd),
+                CGAlgorithms3D::distance_point_segment(bc, cc, dd),
+                CGAlgorithms3D::distance_point_segment(cc, ac, bc),
+                CGAlgorithms3D::distance_point_segment(dd, ac, bc),
+            );
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From 7b26a27d2987ccc252cd6570a27224fdc6987cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 05/34] fix: closest points of intersecting segments are a pair

---
 src/core/geom/line_segment.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index c8003a4..1c5aa43 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -547,10 +547,8 @@ impl LineSegment {
         // test for intersection
         let int_pt = self.intersection(line);
         if int_pt.is_some() {
-            return vec![Coordinate::new_xy(
-                int_pt.unwrap().get_x(),
-                int_pt.unwrap().get_y(),
-            )];
+            let pt = Coordinate::new_xy(int_pt.unwrap().get_x(), int_pt.unwrap().get_y());
+            return vec![pt, pt];
         }
 
         //  if no intersection closest pair contains at least one endpoint.
-- 
2.43.0


From 2dd15f43990f40e63c26830acd0729b9146ddc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/34] fix: a null envelope does not expand an octagonal
 envelope

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..542850e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
-- 
2.43.0


From 47b86ce0f4f1d2d722dd869472ac5e4be18cdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 07/34] fix: a null octagonal envelope intersects no point

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 542850e..fd9117e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -312,6 +312,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From 242d94d490adc9b2e2edfc890c344790ad6da025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 08/34] fix: array sequences read and write the measure by
 ordinate index

---
 .../geom/implementation/coordinate_array_sequence.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..9e12198 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -279,6 +279,14 @@ impl CoordinateArraySequence {
         }
     }
 
+    /**
+     * Tests whether an ordinate index denotes the measure,
+     * which follows the spatial ordinates (index 2 for XYM, 3 for XYZM).
+     */
+    fn is_measure(&self, ordinate_index: i32) -> bool {
+        return self.has_m() && ordinate_index == self.get_dimension() - self.get_measures();
+    }
+
     /**
      * @see org.locationtech.jts.geom.CoordinateSequence#getOrdinate(int, int)
      */
@@ -286,6 +294,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
+            _ if self.is_measure(ordinate_index) => return self.coordinates[index].get_m(),
             _ => {
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
@@ -330,6 +339,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
+            _ if self.is_measure(ordinate_index) => self.coordinates[index].set_m(value),
             _ => self.coordinates[index].set_ordinate(ordinate_index, value),
         }
     }
-- 
2.43.0


From 31bdba64b9279169ce9e74ebe00c07c9bec26df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 09/34] fix: closing or extending a sequence keeps its measures

---
 src/core/geom/coordinate_array_sequences.rs  | 12 ++++++++++--
 src/core/geom/packed_coordinate_sequences.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..eda9c36 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -156,7 +156,11 @@ impl CoordinateArraySequences {
         size: usize,
     ) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -168,7 +172,11 @@ impl CoordinateArraySequences {
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..37cb00a 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -158,7 +158,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -173,7 +177,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From 5c6af5cf2ab788f692d9143223b3fccb8cefba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 10/34] fix: packed sequences can be built from coordinates

---
 .../packed_coordinate_sequence_double.rs      | 56 ++++---------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..e5f0c47 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -80,27 +80,11 @@ impl PackedCoordinateSequenceDouble {
      * @param dimension the total number of ordinates that make up a {@link Coordinate} in this sequence.
      */
     pub fn new_coordinates_with_dimension(coordinates: &Vec<Coordinate>, dimension: i32) -> Self {
-        let mut new = Self {
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(
+            coordinates,
             dimension,
-            measures: i32::max(0, dimension - 3),
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+            i32::max(0, dimension - 3),
+        )
     }
 
     /**
@@ -118,7 +102,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -126,12 +110,16 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
                 // Z or M
+                new.coords[offset + 2] = if dimension - measures < 3 {
+                    coordinates[i].get_m()
+                } else {
+                    coordinates[i].get_z()
+                };
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
                 // M
+                new.coords[offset + 3] = coordinates[i].get_m();
             }
         }
 
@@ -144,27 +132,7 @@ impl PackedCoordinateSequenceDouble {
      * @param coordinates an array of {@link Coordinate}s
      */
     pub fn new_with_coordinates(coordinates: &Vec<Coordinate>) -> Self {
-        let mut new = Self {
-            dimension: 3,
-            measures: 0,
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * new.dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if new.dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(coordinates, 3, 0)
     }
 
     /**
-- 
2.43.0


From a9356e03528b84d6a72699082548315133e0a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 11/34] fix: extracting a part of a coordinate array

---
 src/core/geom/coordinate_arrays.rs | 32 +++++-------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..4c2e87b 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,4 +1,3 @@
-use crate::core::util::math_util::MathUtil;
 
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
@@ -663,33 +662,12 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
-        let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
-            return extract_pts;
-        }
-
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
+        if start >= pts.len() || end < start {
+            return vec![];
         }
-        return extract_pts;
+        let last = usize::min(end, pts.len() - 1);
+        return pts[start..=last].to_vec();
     }
 
     /**
-- 
2.43.0


From 2c63aa6ebec467de89736fdd8e56af80a9841a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 12/34] fix: an invalid first coordinate is recognised

---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 4c2e87b..11a2874 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -401,11 +401,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From e48e1926929cc0cbf71e3ee0e49ced8671ccc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 13/34] fix: enforcing consistent coordinates keeps their
 measures

---
 src/core/geom/coordinate_arrays.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 11a2874..9b2b764 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -89,6 +89,9 @@ impl CoordinateArrays {
                 let coordinate = array[i];
                 let mut duplicate = Coordinates::create_dim_measures(max_dimension, max_measures);
                 duplicate.set_coordinate(&coordinate);
+                if max_measures > 0 && !f64::is_nan(coordinate.get_m()) {
+                    duplicate.set_m(coordinate.get_m());
+                }
                 array[i] = duplicate;
             }
         }
@@ -116,6 +119,9 @@ impl CoordinateArrays {
             let coordinate = array[i];
             let mut duplicate = Coordinates::create_dim_measures(dimension, measures);
             duplicate.set_coordinate(&coordinate);
+            if measures > 0 && !f64::is_nan(coordinate.get_m()) {
+                duplicate.set_m(coordinate.get_m());
+            }
             copy[i] = duplicate;
         }
         return copy;
-- 
2.43.0


From 6d0308ef8b34222065f485ed3fec616ceff96105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 14/34] fix: adding a coordinate list backwards

---
 src/core/geom/coordinate_list.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..876cd8b 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -94,11 +94,8 @@ impl CoordinateList {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         } else {
-            let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
+            for i in (0..coord_list.len()).rev() {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
-                i -= 1;
             }
         }
         return true;
-- 
2.43.0


From bf376b67580a8a969edc5ea11b4945461a545955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 15/34] fix: adding a range of a coordinate list backwards

---
 src/core/geom/coordinate_list.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 876cd8b..7781cb2 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,10 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
-
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            i = if start > end { i - 1 } else { i + 1 };
         }
         return true;
     }
-- 
2.43.0


From c7a660cb5e03a03b8d404fd4a620e4ba75bbdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 16/34] fix: decimal magnitude of numbers below one or above
 nine digits

---
 src/core/math/dd.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..6f59038 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1349,9 +1349,11 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10., x_mag);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
+        } else if x_approx > x_abs {
+            x_mag -= 1;
         }
 
         return x_mag;
-- 
2.43.0


From f3f5f8eb55e869decfdf666c2bbebfdc14d07bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 17/34] fix: rounding an extended-precision number leaves it
 unchanged

---
 src/core/math/dd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 6f59038..f80f432 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -753,13 +753,12 @@ impl DD {
      *
      * @return this value rounded to the nearest integer
      */
-    pub fn rint(&mut self) -> DD {
+    pub fn rint(&self) -> DD {
         if self.is_nan() {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 20a2290230393dc9372090ddfa7f17fbcda4ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 18/34] fix: floor and ceiling of an extended-precision number
 are normalized

---
 src/core/math/dd.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index f80f432..e2905b4 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -687,8 +687,9 @@ impl DD {
         if fhi == self.hi {
             flo = f64::floor(self.lo);
         }
-        // do we need to renormalize here?
-        return DD::new_hi_lo(fhi, flo);
+        // the low word may have been rounded across the precision of the high word
+        let zhi = fhi + flo;
+        return DD::new_hi_lo(zhi, flo - (zhi - fhi));
     }
 
     /**
@@ -711,9 +712,10 @@ impl DD {
         // Hi is already integral.  Ceil the low word
         if fhi == self.hi {
             flo = f64::ceil(self.lo);
-            // do we need to renormalize here?
         }
-        return DD::new_hi_lo(fhi, flo);
+        // the low word may have been rounded across the precision of the high word
+        let zhi = fhi + flo;
+        return DD::new_hi_lo(zhi, flo - (zhi - fhi));
     }
 
     /**
-- 
2.43.0


From 79c9ea09f9cc0c0c244134e3ce9971cf2dc5cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 19/34] fix: solving a linear system no longer underflows

---
 src/core/math/matrix.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..641b9a1 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,8 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
+                for k in (i..n).rev() {
                     a[j][k] -= a[i][k] * row_factor;
-                    k -= 1;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +84,7 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        for j in (0..n).rev() {
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +92,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From 7ee5f00b3251bbde272e04cb0441913ef6078739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 20/34] fix: shuffling integers no longer panics

---
 src/core/util/math_util.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..7c7d8ba 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,16 +189,14 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
-        while i >= 1 {
+        for i in (1..n).rev() {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
             ints[i] = ints[j];
             ints[j] = last;
-            i = i - 1;
         }
 
         return ints;
-- 
2.43.0


From 6821351fe9be2a3765edaef7998ae4cdf9265c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 21/34] fix: ceiling of a quotient with a negative divisor

---
 src/core/util/math_util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 7c7d8ba..e0fbfae 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -60,7 +60,8 @@ impl MathUtil {
      */
     pub fn ceil(num: i32, denom: i32) -> i32 {
         let div = num / denom;
-        if div * denom >= num {
+        // the division truncates, which is the ceiling of a negative quotient
+        if num % denom == 0 || (num < 0) != (denom < 0) {
             return div;
         } else {
             return div + 1;
-- 
2.43.0


From 01daae54096da14e4b9d4c4e60c0aa6c3c0dad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 22/34] fix: the eastern half-plane holds the north-east
 quadrant

---
 src/core/geom/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/quadrant.rs b/src/core/geom/quadrant.rs
index 48c71c5..370963b 100644
--- a/src/core/geom/quadrant.rs
+++ b/src/core/geom/quadrant.rs
@@ -125,7 +125,7 @@ impl Quadrant {
      */
     pub fn is_in_half_plane(quad: i32, half_plane: i32) -> bool {
         if half_plane == Quadrant::SE {
-            return quad == Quadrant::SE || quad == Quadrant::SW;
+            return quad == Quadrant::SE || quad == Quadrant::NE;
         }
         return quad == half_plane || quad == half_plane + 1;
     }
-- 
2.43.0


From 10b114e597f7035870a7f67e7ead9e6089aa5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 23/34] fix: single-precision models round to single precision

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..51558de 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From 5d955ab071c1cfe3d5f096e2041394ae04362830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 24/34] fix: fixed precision models round ties the same way
 everywhere

---
 src/core/geom/precision_model.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 51558de..1f06636 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,23 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  // rounds to the nearest integer, with ties towards positive infinity
+  fn round_half_up(val: f64) -> f64 {
+  	let rounded = f64::round(val);
+  	if val - rounded == 0.5 { return rounded + 1.0; }
+  	return rounded;
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From cbea48f41613b70c6040851cc687069190c7cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 25/34] fix: floating precision models of one type are equal

---
 src/core/geom/precision_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 1f06636..0c192e4 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -356,7 +356,7 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0


From ea43c46a39ebbd02b9b60e83ff89d4a6f53ead93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 26/34] fix: normalizing a polygon normalizes its rings

---
 src/core/geom/polygon.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..ab27d7f 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -358,7 +358,7 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
-        // Arrays.sort(holes);
+        self.holes.sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
     }
 
     pub fn compare_to(&self, poly: &Polygon) -> i32 {
@@ -428,12 +428,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -442,7 +442,7 @@ impl Polygon {
         let min_coordinate_index = CoordinateArraySequences::min_coordinate_index_sequence_from_to(
             &seq,
             0,
-            seq.size() - 2,
+            seq.size().saturating_sub(2),
         );
         CoordinateArraySequences::scroll_coordinate_index_ensure_ring(
             &mut seq,
@@ -452,6 +452,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From 542c234e979735651193c95eed010d3bfbba0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 27/34] fix: multi-polygons can be copied and reversed

---
 src/core/geom/multi_polygon.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,9 +205,11 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -217,9 +219,11 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
-- 
2.43.0


From 46418c75f6585a572a0481f9182139b71097b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 28/34] fix: multi-line-strings can be copied and reversed

---
 src/core/geom/multi_line_string.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..6ba0884 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,18 +130,22 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in (0..self.line_strings.len()).rev() {
+            line_strings.push(self.line_strings[i].reverse());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut res = MultiLineString::new_with_line_strings(&line_strings);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn equals_exact(&self, other: &MultiLineString, tolerance: f64) -> bool {
-- 
2.43.0


From fe52299c296cbd62d4809e32150800b24b49b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 29/34] fix: multi-points can be copied and reversed

---
 src/core/geom/multi_point.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..ad639f1 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,9 +136,11 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -263,9 +265,11 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
-- 
2.43.0


From 5400c46861e5f662eacf7a43f528d0ebf3620d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 30/34] fix: points of a multi-point by index

---
 src/core/geom/multi_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index ad639f1..9b76337 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -223,7 +223,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From 475ba52611aed379ada71e49fd51a66cecadd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 31/34] fix: empty points have no coordinates in a multi-point

---
 src/core/geom/multi_point.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 9b76337..26de50f 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,11 +55,11 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        return self.points.iter().all(|point| point.is_empty());
     }
 
     pub fn get_num_points(&self) -> usize {
-        return self.points.len();
+        return self.points.iter().map(|point| point.get_num_points()).sum();
     }
 
     pub fn get_precision_model(&self) -> Option<PrecisionModel> {
-- 
2.43.0


From aa360f7e1fd866ed32700caba8d760d669b94d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 32/34] fix: polygons with holes can be reversed, and keep
 their precision model

---
 src/core/geom/polygon.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index ab27d7f..5af05ea 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut res = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     // TODO: Implement ME!
@@ -474,10 +476,12 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0


From 551371a39726e834915e41694e4e9391551dc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 33/34] fix: closest point of a segment is the nearer end even
 where distances round alike

---
 src/core/geom/line_segment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index 1c5aa43..71343c6 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -529,6 +529,13 @@ impl LineSegment {
         if factor > 0. && factor < 1. {
             return self.project_coordinate_with_projection_factor(p, factor);
         }
+        // the foot is at or beyond an end: the distances may be equal after rounding
+        if factor <= 0. {
+            return self.p0;
+        }
+        if factor >= 1. {
+            return self.p1;
+        }
         let dist0 = self.p0.distance(p);
         let dist1 = self.p1.distance(p);
         if dist0 < dist1 {
-- 
2.43.0


From 33e1cd98cbdc9eadf2e265c523e0069adb013022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:00 +0000
Subject: [PATCH 34/34] fix: a copy of a packed sequence keeps its number of
 measures

---
 src/core/geom/implementation/packed_coordinate_sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence.rs b/src/core/geom/implementation/packed_coordinate_sequence.rs
index e1e0913..3c317a0 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence.rs
@@ -83,9 +83,10 @@ impl PackedCoordinateSequence {
      */
     pub fn copy(&self) -> PackedCoordinateSequenceDouble {
         let clone = self.coords.to_vec();
-        return PackedCoordinateSequenceDouble::new_coordinates_with_dimension(
+        return PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(
             &clone,
             self.get_dimension(),
+            self.get_measures(),
         );
     }
 
-- 
2.43.0


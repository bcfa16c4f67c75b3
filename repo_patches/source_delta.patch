From 142f2f003f5915e9c62ceb53bd38e3039de75d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 01/23] fix: log_det_F in one dimension must use 1 + du/dX, not
 du/dX

---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..4de9955 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + u11 = 1 + γ
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From f07b9cc09b1e02b48897652d39fc25ff42080c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 02/23] fix: DisjointSubsetsProducer::split_at must accept a
 split at its length

---
 fenris-paradis/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..fdae09c 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,8 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        // Note: rayon permits index == len, in which case the right producer is empty
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From 77581a987c4f49fdae8fba30339f6486dbb427f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 03/23] fix: subsets_par_iter must accept collections whose
 subsets are all empty

---
 fenris-paradis/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index fdae09c..82960d8 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,8 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then there cannot be any non-empty subsets
+        debug_assert_eq!(self.max_index.is_none(), self.subsets.iter().all(|subset| subset.is_empty()));
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From 4fed09fafacbdf43dd68445531cf9332e3c1d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 04/23] fix: Permutation::from_vec must reject out-of-bounds
 indices instead of panicking

---
 src/mesh/reorder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..0f085b6 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,10 +119,10 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
-                return Err(InvalidPermutation { marker: PhantomData });
-            } else {
-                visited[index] = true;
+            match visited.get_mut(index) {
+                Some(visited) if !*visited => *visited = true,
+                // Index is either a duplicate or out of bounds
+                _ => return Err(InvalidPermutation { marker: PhantomData }),
             }
         }
         Ok(Self { perm })
-- 
2.43.0


From 13f23edb900f6c30962eb160d25ea4409cc4b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 05/23] fix: Quad2d::concave_corner must compare with the
 previous vertex

---
 fenris-geometry/src/primitives/quad.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..4129bde 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -51,17 +51,21 @@ where
 {
     /// Returns the index of a concave corner of the quadrilateral, if there is any.
     pub fn concave_corner(&self) -> Option<usize> {
+        // The cross product of the diagonals is twice the signed area
+        let signed_area = (self.0[2] - self.0[0]).perp(&(self.0[3] - self.0[1]));
+
         for i in 0..4 {
             let x_next = self.0[(i + 2) % 4];
             let x_curr = self.0[(i + 1) % 4];
-            let x_prev = self.0[(i + 1) % 4];
+            let x_prev = self.0[i];
 
             let a = x_next - x_curr;
             let b = x_prev - x_curr;
-            // perp gives "2d cross product", which when negative means that the interior angle
-            // is creater than 180 degrees, and so the corner must be concave
-            if a.perp(&b) < T::zero() {
-                return Some(i + 1);
+            // perp gives "2d cross product", which when its sign is opposite to that of the area
+            // means that the interior angle is greater than 180 degrees,
+            // and so the corner must be concave
+            if a.perp(&b) * signed_area < T::zero() {
+                return Some((i + 1) % 4);
             }
         }
 
-- 
2.43.0


From c9dc53a70580d683b9ab901b876504c7c5af0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 06/23] fix: project_physical_coordinates must stop when it
 does not converge

---
 src/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..d617ec3 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -450,7 +450,7 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from("Exceeded 1000 iterations for project_physical_coordinates"));
         }
     }
 
-- 
2.43.0


From 098e8a9d8bbe6f3815ee325a255847b2e2c4407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 07/23] fix: assemble element matrices of elements that repeat
 a node

add_element_row_to_csr_row panicked when an element contained the same node more than once, although the sparsity pattern and vector assembly support it.
---
 src/assembly/global.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..06b2aa7 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -518,9 +518,18 @@ fn add_element_row_to_csr_row<T, S>(
 
     let (col_indices, values) = (row_col_indices, row_values);
     let mut csr_col_idx_iter = col_indices.iter().copied().enumerate();
+    // An element may contain the same node several times, in which case we must revisit the same columns
+    let mut node_start_iter = csr_col_idx_iter.clone();
+    let mut previous_node = None;
 
     for &node_local_idx in sorted_permutation {
         let node_global_idx = node_connectivity[node_local_idx];
+        if previous_node == Some(node_global_idx) {
+            csr_col_idx_iter = node_start_iter.clone();
+        } else {
+            node_start_iter = csr_col_idx_iter.clone();
+        }
+        previous_node = Some(node_global_idx);
 
         for i in 0..dim {
             let local_col_idx = dim * node_local_idx + i;
-- 
2.43.0


From 2454ea9baf45366f2be6e4ce2bb965878793f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 08/23] fix: check the offsets of deserialized nested vectors

Deserializing accepted any offsets, after which get() returned None for indices below len() (iter() panicked) or arrays overlapped.
---
 fenris-nested-vec/src/lib.rs | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/fenris-nested-vec/src/lib.rs b/fenris-nested-vec/src/lib.rs
index 50bf7f9..91778d7 100644
--- a/fenris-nested-vec/src/lib.rs
+++ b/fenris-nested-vec/src/lib.rs
@@ -3,14 +3,50 @@ use std::fmt;
 use std::fmt::Debug;
 use std::ops::Range;
 
-// TODO: Manually implement Deserialize to avoid soundness hole
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedNestedVec<T>")]
 pub struct NestedVec<T> {
     data: Vec<T>,
     offsets_begin: Vec<usize>,
     offsets_end: Vec<usize>,
 }
 
+/// The serialized form of [`NestedVec`], whose invariants have not yet been checked.
+#[derive(Deserialize)]
+struct UncheckedNestedVec<T> {
+    data: Vec<T>,
+    offsets_begin: Vec<usize>,
+    offsets_end: Vec<usize>,
+}
+
+impl<T> TryFrom<UncheckedNestedVec<T>> for NestedVec<T> {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedNestedVec<T>) -> Result<Self, Self::Error> {
+        let UncheckedNestedVec {
+            data,
+            offsets_begin,
+            offsets_end,
+        } = unchecked;
+        if offsets_begin.len() != offsets_end.len() {
+            return Err("nested vector must have the same number of begin and end offsets");
+        }
+        // Arrays must be stored in order, without overlapping
+        let mut previous_end = 0;
+        for (&begin, &end) in offsets_begin.iter().zip(&offsets_end) {
+            if begin < previous_end || end < begin || end > data.len() {
+                return Err("nested vector has invalid offsets");
+            }
+            previous_end = end;
+        }
+        Ok(Self {
+            data,
+            offsets_begin,
+            offsets_end,
+        })
+    }
+}
+
 impl<T: Debug> Debug for NestedVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_list().entries(self.iter()).finish()
-- 
2.43.0


From 8e9a3554e56907bf006e087a148e04ff907f1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 09/23] fix: check that deserialized subsets are disjoint

Safe code could deserialize overlapping subsets, or a maximum index smaller than the actual one, and obtain aliasing or out-of-bounds mutable access from subsets_par_iter.
---
 fenris-paradis/src/lib.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 82960d8..acfc185 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -168,6 +168,7 @@ pub unsafe trait ParallelIndexedCollection<'a> {
 /// empty.
 ///
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedDisjointSubsets")]
 pub struct DisjointSubsets {
     // Store the max global index present in any of the subsets. We need this to
     // ensure that none of the indices are out of bounds when accessing a storage.
@@ -180,6 +181,35 @@ pub struct DisjointSubsets {
     labels: Vec<usize>,
 }
 
+/// The serialized form of [`DisjointSubsets`], which may not actually be disjoint.
+#[derive(Deserialize)]
+struct UncheckedDisjointSubsets {
+    max_index: Option<usize>,
+    subsets: NestedVec<usize>,
+    labels: Vec<usize>,
+}
+
+impl TryFrom<UncheckedDisjointSubsets> for DisjointSubsets {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedDisjointSubsets) -> Result<Self, Self::Error> {
+        let UncheckedDisjointSubsets {
+            max_index,
+            subsets,
+            labels,
+        } = unchecked;
+        if subsets.len() != labels.len() {
+            return Err("there must be exactly one label per subset");
+        }
+        let disjoint_subsets =
+            Self::try_from_disjoint_subsets(subsets, labels).map_err(|_| "subsets are not disjoint")?;
+        if disjoint_subsets.max_index != max_index {
+            return Err("maximum index does not match the subsets");
+        }
+        Ok(disjoint_subsets)
+    }
+}
+
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct SubsetsNotDisjointError;
 
-- 
2.43.0


From b45d9c8d062edc53b3cbfcfde2cc05a09748d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 10/23] fix: never put zero on the diagonal of constrained rows

apply_homogeneous_dirichlet_bc_matrix made the constrained rows entirely zero when the diagonal of the matrix was zero, unlike apply_homogeneous_dirichlet_bc_csr.
---
 src/assembly/global.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 06b2aa7..b9eb18b 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -465,6 +465,8 @@ where
         .map(|x| x.abs())
         .fold(T::zero(), |a, b| a + b)
         / T::from_usize(matrix.nrows()).unwrap();
+    // The diagonal entries of constrained rows must be non-zero also when the whole diagonal is zero
+    let scale = if scale == T::zero() { T::one() } else { scale };
 
     for node in nodes {
         for i in 0..d {
-- 
2.43.0


From 9ec6b0c94b0c088e7755d150774a1b99540cab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 11/23] fix: BlockMut must not be Copy or Clone

A copy of a BlockMut gave safe code two mutable references to the same entry.
---
 fenris-paradis/src/adapter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-paradis/src/adapter.rs b/fenris-paradis/src/adapter.rs
index 05939f9..633fc13 100644
--- a/fenris-paradis/src/adapter.rs
+++ b/fenris-paradis/src/adapter.rs
@@ -95,7 +95,7 @@ where
     }
 }
 
-#[derive(Copy, Clone)]
+// Must not be Copy or Clone: copies would give aliasing mutable access to the same entries
 pub struct BlockMut<'a, Access> {
     access: Access,
     start_idx: usize,
-- 
2.43.0


From c2f8aa8c3b4109c43794a0a50c4fc000f16eb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 12/23] fix: compute_solid_angle must not confuse angles larger
 than pi

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..deafbb9 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // Need to use atan2, since the denominator is negative for solid angles larger than pi
+        2.0 * abc_matrix.determinant().atan2(denominator)
     }
 }
 
-- 
2.43.0


From 9da2b36268db18d724c77caecd451fff535449e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 13/23] fix: a segment that ends before the disk does not
 intersect it

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..5dc411c 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only outside of the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From 280cb9efb8d57add667759064ba09a534a4b0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 14/23] fix: an empty convex polygon contains no point

---
 fenris-geometry/src/polytope.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 2cc654b..6904916 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -96,7 +96,9 @@ where
 
     /// Determines if the (closed) convex polygon contains the given point.
     pub fn contains_point(&self, point: &Point2<T>) -> bool {
-        if self.is_point() {
+        if self.is_empty() {
+            false
+        } else if self.is_point() {
             self.vertices.first().unwrap() == point
         } else if self.is_line_segment() {
             unimplemented!()
-- 
2.43.0


From d1dce1116ebd8338845142455578b65f3307e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 15/23] fix: the intersection with an empty convex polygon is
 empty

---
 fenris-geometry/src/polytope.rs        | 4 +++-
 fenris-geometry/src/primitives/line.rs | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 6904916..278c14a 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -153,7 +153,9 @@ where
     /// Computes the intersection of this polygon and the given convex polygon.
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Self {
         // TODO: Deal with degeneracies
-        if self.is_point() || other.is_point() {
+        if self.is_empty() || other.is_empty() {
+            ConvexPolygon::from_vertices(Vec::new())
+        } else if self.is_point() || other.is_point() {
             unimplemented!()
         } else if self.is_line_segment() {
             let segment = LineSegment2d::from_end_points(self.vertices[0], self.vertices[1]);
diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 5dc411c..ae25148 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -260,6 +260,11 @@ where
     }
 
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Option<LineSegment2d<T>> {
+        if other.is_empty() {
+            // An empty polygon has no half planes
+            return None;
+        }
+
         let mut result = self.clone();
         for half_plane in other.half_planes() {
             result = result.intersect_half_plane(&half_plane)?;
-- 
2.43.0


From fdcd5bd691c61ba5042e43337a386c0d43f5725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 16/23] fix: intersects_segment must report segments that cross
 an edge

---
 fenris-geometry/src/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..c40a8d9 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -140,6 +140,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From d9440c2668662c9eea5b0c3889d6f23ff14a833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 17/23] fix: intersect_halfplane must not panic for nearly
 degenerate edges

---
 fenris-geometry/src/polytope.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 278c14a..67d1487 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,7 +1,7 @@
-use crate::{HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
-use nalgebra::{Point2, Scalar, Unit, Vector2};
+use nalgebra::{clamp, Point2, Scalar, Unit, Vector2};
 
 /// Type used to indicate conversion failure in the presence of concavity.
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
@@ -132,15 +132,15 @@ where
 
                 if (v1_contained && !v2_contained) || (!v1_contained && v2_contained) {
                     // Edge is intersected, add vertex at intersection point
-                    let dir = (v2 - v1).normalize();
-                    let intersection_point = half_plane
-                        .surface()
-                        .intersect(&Line2d::from_point_and_dir(v1.clone(), dir))
-                        .expect(
-                            "We already know that the line must intersect the edge, \
-                             so this should work unless we have some ugly numerical \
-                             artifacts.",
-                        );
+                    // We already know that the half plane intersects the edge, but for (nearly) degenerate
+                    // edges round-off errors can make the edge and the surface of the half plane appear
+                    // to be parallel, or move their intersection off the edge
+                    let edge = LineSegment2d::from_end_points(v1.clone(), v2.clone());
+                    let t = edge
+                        .intersect_line_parametric(&half_plane.surface())
+                        .map(|t| clamp(t, T::zero(), T::one()))
+                        .unwrap_or(T::zero());
+                    let intersection_point = edge.point_from_parameter(t);
 
                     new_vertices.push(intersection_point);
                 }
-- 
2.43.0


From ea166abe3a4e84272067159b89ec7f80a5a51ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 18/23] fix: a hexahedral mesh of an empty box has no unused
 vertices

---
 src/mesh/procedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..58c57d4 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -223,7 +223,7 @@ pub fn create_rectangular_uniform_hex_mesh<T>(
 where
     T: Real,
 {
-    if cells_per_unit == 0 || units_x == 0 || units_y == 0 {
+    if cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 {
         HexMesh::from_vertices_and_connectivity(Vec::new(), Vec::new())
     } else {
         let mut vertices = Vec::new();
-- 
2.43.0


From f3280318d9136f80a49d8fb908a95dba03042ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 19/23] fix: a fixed interpolator for a space without elements
 must not panic

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..afd6b44 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // There are no elements in the space, so no nodes are supported on this point
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // There are no elements in the space, so no nodes are supported on this point
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From 9ef41a329937ae84d4e9be625abce748af7163eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 20/23] fix: node tags of an MSH file need not start at 1

---
 src/io/msh.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..8dca35b 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -55,7 +55,7 @@ where
         .nodes
         .take()
         .ok_or(eyre!("MSH file does not contain nodes"))?;
-    let msh_elements = msh_file
+    let mut msh_elements = msh_file
         .data
         .elements
         .take()
@@ -96,6 +96,22 @@ where
         ));
     }
 
+    // Node tags are consecutive, but they do not necessarily start at 1. Since `MshConnectivity` expects
+    // one-based tags, shift the tags so that the first node has tag 1.
+    let (min_tag, max_tag) = (msh_nodes.min_node_tag, msh_nodes.max_node_tag);
+    for element in msh_elements
+        .element_blocks
+        .iter_mut()
+        .flat_map(|block| &mut block.elements)
+    {
+        for tag in &mut element.nodes {
+            if *tag < min_tag || *tag > max_tag {
+                return Err(eyre!("element references node with tag {}, which does not exist", tag));
+            }
+            *tag -= min_tag - 1;
+        }
+    }
+
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
         let block_connectivity = connectivity_from_element_block(element_block)?;
-- 
2.43.0


From a17698b6faaa0dcdbe8231425a797b77a1ace403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 21/23] fix: export nine-node quads to VTK as biquadratic quads

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From 1b85ccfa65c4018bdc43e534cfad36d9c553b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 22/23] fix: volume of a polytopal mesh must not depend on the
 orientation of shared and cut faces

---
 fenris-geometry/src/polymesh.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..4eef720 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -551,14 +551,33 @@ where
         self
     }
 
+    /// Computes the total volume of the cells in the mesh.
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
+        let mut volume = T::zero();
+        for cell_faces in self.cell_connectivity_iter() {
+            // Since the cell is convex, it is the union of the cones from an interior point to each of its faces.
+            // The volume of each cone does not depend on the orientation of the face, which cannot be consistent
+            // for both cells that share a face.
+            let mut num_vertices = T::zero();
+            let mut interior_point = Vector3::zeros();
+            for vertex in cell_faces.iter().flat_map(|face_idx| self.face_vertices(*face_idx)) {
+                interior_point += &vertex.coords;
+                num_vertices += T::one();
+            }
+            interior_point /= num_vertices;
 
-        compute_polyhedron_volume_from_faces(face_iter)
+            for face_idx in cell_faces {
+                let face = self.get_face(*face_idx).unwrap();
+                // Ignore degenerate faces
+                if face.num_vertices() > 2 {
+                    let x0 = face.get_vertex(0).unwrap();
+                    let height_times_area = face.compute_area_vector().dot(&(&x0.coords - &interior_point));
+                    volume += height_times_area.abs() / 3.0;
+                }
+            }
+        }
+        volume
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From 43ea1b70fc88851576b7aaec83dc3c39c05a3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 23/23] fix: converting a polytopal mesh with non-triangular
 faces to a tetrahedral mesh returns an error instead of panicking

---
 src/mesh_convert.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh_convert.rs b/src/mesh_convert.rs
index 7942fbe..3ca6613 100644
--- a/src/mesh_convert.rs
+++ b/src/mesh_convert.rs
@@ -592,6 +592,12 @@ where
                 // and finally connecting the base vertices to the apex.
                 let mut base_vertices = [0; 3];
                 let base_face = get_face(cell[0]);
+                if cell.iter().any(|face_idx| get_face(*face_idx).len() != 3) {
+                    return Err(Box::from(format!(
+                        "Failure to convert: The faces of cell {} are not all triangles.",
+                        cell_idx
+                    )));
+                }
                 base_vertices.clone_from_slice(base_face);
 
                 // Each remaining face should consist of two vertices from the base face,
-- 
2.43.0


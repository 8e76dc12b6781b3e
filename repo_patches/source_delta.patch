From 69830b2b01ae0dad5fca2074ef5fce33f84508a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 01/30] fix: orient3d multiplies the right coordinate tail in
 its last exact stage

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From eb081623c90c905715e83e142eac4f62fa7abaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 02/30] fix: expansion_sum adds every component of its second
 operand

---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..81b895d 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From fe7e2d3f95e0d55b3e4eba8f66a7feca66dc2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 03/30] fix: fast_expansion_sum_zeroelim keeps the only
 component of its operands

---
 src/predicates/predicates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index 81b895d..7f770ff 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -344,7 +344,9 @@ pub fn fast_expansion_sum_zeroelim<A: Allocator>(
         }
         harr
     } else {
-        Vec::new_in(allocator)
+        let mut harr = Vec::with_capacity_in(1, allocator);
+        harr.push(q);
+        harr
     }
 }
 
-- 
2.43.0


From 76429decbf23a4983e59cdb076ca9c6ef99ab87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 04/30] fix: grow_expansion_zeroelim represents zero by one
 component

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index 7f770ff..2f1e88a 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -229,7 +229,7 @@ pub fn grow_expansion_zeroelim<A: Allocator>(earr: &[f64], b: f64, allocator: A)
             None
         }
     }));
-    if q != 0.0 {
+    if q != 0.0 || h.is_empty() {
         h.push(q);
     }
     h
-- 
2.43.0


From 16de4c21e677a845b45cd79664206e71cf8ef823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 05/30] fix: interval numbers keep their sign and bound
 convention

---
 src/predicates/interval_number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..fa8d0ba 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -8,7 +8,7 @@ const SIGN_HIGH_MASK: u64x2 = u64x2::from_array([(1_u64 << 63), 0u64]);
 
 #[derive(Clone)]
 pub struct IntervalNumber {
-    /// [high; low]
+    /// [high; -low]
     data: f64x2,
 }
 
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 9c135dfef49c6a88fd7588a150fb88bf890c804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 06/30] fix: coordinate comparisons honour operand order and
 compare the requested axis

---
 src/predicates/less_than.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..091bbaa 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,20 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_x_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +22,13 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_y_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +36,13 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_z_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
@@ -449,9 +449,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From 41f1ef60ca2b085be2addcd32a4be5ecda38f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/30] fix: remove_duplicates merges the points that round to
 the same position

---
 src/polygonlization/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..8f69df3 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -27,12 +27,16 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From e730fd1609b2e7f9ff366158d7dd6ef28f869104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 08/30] fix: push-relabel reports the sink side of a minimum
 cut

---
 src/graphcut/push_relabel_fifo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..b04a0cd 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,8 @@ where
                 self.global_relabel();
             }
         }
+        // the labels are only lower bounds: find the nodes that still reach the sink
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From f120acc315d1eff5b066b69928f355d3572be6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 09/30] fix: graph cut assigns nodes outside both trees to one
 side

---
 src/graphcut/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..9c7055b 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,12 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // nodes in neither tree keep the mark of a tree they left: they belong to the source side
+        for i in 0..self.parent.len() {
+            if self.parent[i] == INVALID_IND {
+                self.is_sink[i] = false;
+            }
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From 7c738529bbc1f9e03feaca053ab129148e2f4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 10/30] fix: a segment recovered through a vertex marks its
 first part too

---
 src/triangle/triangle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..00237c6 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1157,18 +1157,18 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    // The edge from `endpoint1' to the vertex reached is part of the segment
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint2 { mark } else { twin(mark) },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From 449193108b0850811452eac432d5a7982eca431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 11/30] fix: triangulate returns no triangles for fewer than
 three points

---
 src/triangle/triangle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 00237c6..39a10f7 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -12,6 +12,9 @@ pub fn triangulate<A: Allocator + Copy>(
     bump: A,
 ) -> Vec<usize, A> {
     let n_points = points.len() >> 1;
+    if n_points < 3 {
+        return Vec::new_in(bump);
+    }
     let mut sorted_pt_inds = Vec::with_capacity_in(n_points, bump);
     sorted_pt_inds.extend(0..n_points);
     sorted_pt_inds.sort_unstable_by(|&i, &j| {
-- 
2.43.0


From a3e9244f1fc87c7c265322c7718d3198b0526e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 12/30] fix: tetrahedralize starts from any four points that
 are exactly not coplanar

---
 src/triangle/tetrahedron.rs | 70 +++++++++++--------------------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..f156713 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -3,7 +3,6 @@ use std::alloc::Allocator;
 use hashbrown::HashMap;
 
 use crate::{
-    math::{cross, norm, sub},
     predicates::{self, double_to_sign, sign_reverse, Orientation},
     INVALID_IND,
 };
@@ -1121,7 +1120,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         hilbert_limit: 8,
         ratio: 0.125,
     };
-    const EPS: f64 = 1e-6;
     let mut n_group = 1;
     brio_multiscale_sort(
         points,
@@ -1131,75 +1129,50 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         &mut n_group,
     );
 
-    let mut temp_vec3 = [0.0, 0.0, 0.0];
-    let bbox_size1 = {
-        sub(&bbox[3..6], &bbox, &mut temp_vec3);
-        norm(&temp_vec3)
-    };
-    let bbox_size2 = bbox_size1 * bbox_size1;
-    let bbox_size3 = bbox_size2 * bbox_size1;
+    // The first tetrahedron only has to be a real one: four points not in a plane.
+    let mut bump = Bump::new();
     let mut i = 1;
     {
         let p0 = point(points, sorted_pt_inds[0]);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            sub(p0, pi, &mut temp_vec3);
-            if norm(&temp_vec3) / bbox_size1 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points && p0 == point(points, sorted_pt_inds[i]) {
+            i += 1;
         }
-        if i > 1 {
-            if i == mesh.n_points {
-                return mesh;
-            }
-            sorted_pt_inds.swap(1, i);
+        if i == mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(1, i);
 
         i = 2;
         let p1 = point(points, sorted_pt_inds[1]);
-        sub(p1, p0, &mut temp_vec3);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            let mut v2 = [0.0; 3];
-            sub(pi, p0, &mut v2);
-            let mut n = [0.0; 3];
-            cross(&temp_vec3, &v2, &mut n);
-            if norm(&n) / bbox_size2 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points
+            && !predicates::mis_alignment(p0, p1, point(points, sorted_pt_inds[i]), &bump)
+        {
+            i += 1;
         }
-        if i > 2 {
-            if i == mesh.n_points {
-                return mesh;
-            };
-            sorted_pt_inds.swap(2, i);
+        if i == mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(2, i);
     }
     i = 3;
     let mut ori = 0.0;
     while i < mesh.n_points {
-        ori = predicates::orient3d_fast(
+        ori = predicates::orient3d(
             point(points, sorted_pt_inds[0]),
             point(points, sorted_pt_inds[1]),
             point(points, sorted_pt_inds[2]),
             point(points, sorted_pt_inds[i]),
+            &bump,
         );
-        if ori.abs() / bbox_size3 < EPS {
-            i += 1;
-        } else {
+        if ori != 0.0 {
             break;
         }
+        i += 1;
     }
-    if i > 3 {
-        if i == mesh.n_points {
-            return mesh;
-        }
-        sorted_pt_inds.swap(3, i);
+    if i == mesh.n_points {
+        return mesh;
     }
+    sorted_pt_inds.swap(3, i);
 
     // follow the right rule
     if ori > 0.0 {
@@ -1213,7 +1186,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         sorted_pt_inds[2],
         sorted_pt_inds[3],
     );
-    let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
         if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-- 
2.43.0


From 6aa7594ce6b9e5964be17558ac72c3dbb9dcad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:53 +0000
Subject: [PATCH 13/30] fix: tetrahedralize carries on after a repeated point

---
 src/triangle/tetrahedron.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index f156713..5c575a5 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1188,9 +1188,8 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     );
     for i in 4..mesh.n_points {
         bump.reset();
-        if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-            break;
-        }
+        // a point that coincides with an inserted one is left out
+        insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump);
     }
 
     let mut count = 0;
@@ -1214,6 +1213,9 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
 
     // make p2t[i] not be a ghost
     for i in 0..mesh.n_points {
+        if mesh.p2t[i] == INVALID_IND {
+            continue;
+        }
         mesh.p2t[i] = tet_map[mesh.p2t[i]];
         if mesh.is_hull_tet(mesh.p2t[i]) {
             mesh.p2t[i] = mesh.tets[mesh.p2t[i]].nei[3].tet;
-- 
2.43.0


From fc8bbbec9add6a11e4edb2cbdda58f0cdf43e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:25 +0000
Subject: [PATCH 14/30] fix: the search after a very large cavity starts from a
 new tetrahedron

---
 src/triangle/tetrahedron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 5c575a5..008fc90 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1057,10 +1057,11 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
                     tets.p2t[vid] = newtet.tet;
                 }
             }
+
+            // the next search starts from a new tet, the old ones are deleted
+            *searchtet = newtet;
         }
 
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From f8d67ba9beb8e336fc3ac26d9955a71fc2ab99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 15/30] fix: coplanar triangles of either orientation are
 tested against the cutting polygon

---
 src/polygonlization/bsp_complex.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..03e46de 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1881,6 +1881,12 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
         }
     }
     {
+        // the polygon goes round like the triangle that cuts the cell, "tri" may go the other way
+        let poly_ori = poly[2..]
+            .iter()
+            .map(|&pc| orient2d::orient2d_by_axis(poly[0], poly[1], pc, axis, alloc))
+            .find(|&ori| ori != Orientation::Zero)
+            .unwrap();
         for (&pa, &pb) in poly.iter().circular_tuple_windows() {
             let mut has_inside = false;
             for &pc in tri {
@@ -1888,7 +1894,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From d91e7a0786cf0cc1fe14a704c361c36833ddb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 16/30] fix: a vertex where another face group has a corner is
 not merged away

---
 src/polygonlization/bsp_complex.rs | 42 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 03e46de..1314c71 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -869,20 +869,8 @@ impl BSPComplex {
         let mut edge_in_group = vec![INVALID_IND; self.edge_data.len()];
 
         let group_map = ds.output();
-        let mut face_in_group = vec![INVALID_IND; self.face_data.len()];
-        for (&id, new_faces) in &group_map {
-            for &new_fid in new_faces {
-                face_in_group[f_new_to_old[new_fid]] = id;
-            }
-        }
-        let edge_face_groups = Vec::from_iter(edge_faces.iter().map(|faces| {
-            let mut groups = Vec::from_iter(faces.into_iter().map(|&fid| face_in_group[fid]));
-            groups.sort_unstable();
-            groups.dedup();
-            groups
-        }));
-
-        Vec::from_iter(group_map.into_values().map(|indices| {
+        let mut group_outlines = Vec::with_capacity(group_map.len());
+        for indices in group_map.into_values() {
             bump.reset();
             let mut tid = INVALID_IND;
             let mut base_fid = FaceId::default();
@@ -908,13 +896,30 @@ impl BSPComplex {
                 max_comp_in_tri_normal(pa, pb, pc, &bump)
             };
 
+            group_outlines.push((outline_groups, axis));
+        }
+
+        // A vertex may only be merged away if it is a corner of no face group.
+        let mut edge_on_outline = vec![false; self.edge_data.len()];
+        let mut n_outline_edges = vec![0usize; self.vertex_data.len()];
+        for &(eid, _) in group_outlines.iter().flat_map(|g| &g.0).flatten() {
+            if !edge_on_outline[eid] {
+                edge_on_outline[eid] = true;
+                for vid in self.mesh.e_vertices(eid) {
+                    n_outline_edges[vid] += 1;
+                }
+            }
+        }
+
+        Vec::from_iter(group_outlines.into_iter().map(|(outlines, axis)| {
+            bump.reset();
             (
-                Vec::from_iter(outline_groups.into_iter().map(|outline| {
+                Vec::from_iter(outlines.into_iter().map(|outline| {
                     self.merge_colinear_edges(
                         outline,
                         &mut edge_groups,
                         &mut edge_in_group,
-                        &edge_face_groups,
+                        &n_outline_edges,
                         axis,
                         &bump,
                     )
@@ -1061,7 +1066,7 @@ impl BSPComplex {
         outline: Vec<(EdgeId, bool)>,
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
-        edge_face_groups: &[Vec<usize>],
+        n_outline_edges: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1079,8 +1084,7 @@ impl BSPComplex {
 
         let colinear = |ha: &(EdgeId, bool), hb: &(EdgeId, bool)| {
             let ea = ha.0;
-            let eb = hb.0;
-            if edge_face_groups[ea] != edge_face_groups[eb] {
+            if n_outline_edges[end_vertex(ha)] != 2 {
                 return false;
             }
 
-- 
2.43.0


From df66bbb7c49b944be5395063577b8576ec2a3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 17/30] Observation hook for the space subdivision, compiled
 only with --cfg verif_hooks

---
 src/lib.rs                         |   1 +
 src/polygonlization/bsp_complex.rs |  36 ++++++++++
 src/polygonlization/mod.rs         |   4 ++
 src/polygonlization/verif.rs       | 107 +++++++++++++++++++++++++++++
 4 files changed, 148 insertions(+)
 create mode 100644 src/polygonlization/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1ffc260..15dd34c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #![feature(const_fn_floating_point_arithmetic)]
 #![feature(float_next_up_down)]
 #![feature(cell_leak)]
diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 1314c71..10b9d69 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -239,6 +239,34 @@ impl BSPComplex {
         }
     }
 
+    #[cfg(verif_hooks)]
+    pub(crate) fn verif_snapshot(&self) -> super::verif::Snapshot {
+        super::verif::Snapshot {
+            vertices: Vec::from_iter(self.points.iter().map(|p| p.into())),
+            faces: Vec::from_iter(self.mesh.faces().map(|face| {
+                let data = &self.face_data[*face];
+                super::verif::Face {
+                    vertices: Vec::from_iter(face.halfedges().map(|he| he.from().0)),
+                    plane: data.plane.map(|v| v.0),
+                    cells: data.cells,
+                    triangles: data.triangles.clone(),
+                }
+            })),
+            cells: Vec::from_iter(
+                self.cell_data
+                    .iter()
+                    .map(|c| Vec::from_iter(c.faces.iter().map(|f| f.0))),
+            ),
+            pending: Vec::from_iter(self.cell_data.iter().map(|c| c.inner_triangles.clone())),
+            triangles: Vec::from_iter(
+                self.constraints
+                    .chunks(3)
+                    .map(|t| [t[0].0, t[1].0, t[2].0]),
+            ),
+            n_input_triangles: self.n_ori_triangles,
+        }
+    }
+
     #[inline(always)]
     pub(crate) fn n_cells(&self) -> usize {
         self.cell_data.len()
@@ -726,6 +754,8 @@ impl BSPComplex {
         }
 
         let mut cell_kept = vec![false; self.cell_data.len() + 1];
+        #[cfg(verif_hooks)]
+        let mut inside = Vec::new();
 
         for build in arc_builders {
             // add 3 to the number of cells because there are two terminal and one outer cell node
@@ -735,7 +765,13 @@ impl BSPComplex {
                 // add 1 to cid because the first node is the source
                 cell_kept[cid] |= !max_flow.is_sink(cid + 1);
             }
+            #[cfg(verif_hooks)]
+            inside.push(Vec::from_iter(
+                (0..self.cell_data.len()).map(|cid| !max_flow.is_sink(cid + 1)),
+            ));
         }
+        #[cfg(verif_hooks)]
+        super::verif::after_partition(self, tri_in_shell, &is_black, inside);
 
         let mut kept_faces = vec![0; self.face_data.len()];
         for face in self.mesh.faces() {
diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 8f69df3..9448e55 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -1,5 +1,7 @@
 mod bsp_complex;
 mod conforming_mesh;
+#[cfg(verif_hooks)]
+pub mod verif;
 
 use bumpalo::Bump;
 
@@ -74,6 +76,8 @@ fn make_mesh_for_proper_triangles(
             if complex.splittable(cid) {
                 bump.reset();
                 complex.split_cell(cid, &bump);
+                #[cfg(verif_hooks)]
+                verif::after_split(&complex);
             } else {
                 cid += 1;
             }
diff --git a/src/polygonlization/verif.rs b/src/polygonlization/verif.rs
new file mode 100644
index 0000000..ce64d3f
--- /dev/null
+++ b/src/polygonlization/verif.rs
@@ -0,0 +1,107 @@
+//! Observation of the space subdivision; compiled only with `--cfg verif_hooks`.
+use std::cell::RefCell;
+
+use super::bsp_complex::BSPComplex;
+use crate::predicates::Point3D;
+
+/// How a vertex of the subdivision is defined.
+#[derive(Clone, Debug)]
+pub enum VertexDef {
+    Explicit([f64; 3]),
+    /// a line through the first two points and a plane through the last three
+    Lpi([[f64; 3]; 5]),
+    /// three planes through three points each
+    Tpi([[f64; 3]; 9]),
+}
+
+impl From<&Point3D> for VertexDef {
+    fn from(p: &Point3D) -> Self {
+        match p {
+            Point3D::Explicit(p) => VertexDef::Explicit(p.data),
+            Point3D::LPI(p) => {
+                VertexDef::Lpi([p.p.data, p.q.data, p.r.data, p.s.data, p.t.data])
+            }
+            Point3D::TPI(p) => VertexDef::Tpi([
+                p.v1.data, p.v2.data, p.v3.data, p.w1.data, p.w2.data, p.w3.data, p.u1.data,
+                p.u2.data, p.u3.data,
+            ]),
+        }
+    }
+}
+
+#[derive(Clone, Debug)]
+pub struct Face {
+    pub vertices: Vec<usize>,
+    pub plane: [usize; 3],
+    /// `usize::MAX` stands for the outside of the subdivision
+    pub cells: [usize; 2],
+    pub triangles: Vec<usize>,
+}
+
+#[derive(Clone, Debug, Default)]
+pub struct Snapshot {
+    pub vertices: Vec<VertexDef>,
+    pub faces: Vec<Face>,
+    /// the faces of each cell
+    pub cells: Vec<Vec<usize>>,
+    /// the triangles that still have to cut each cell
+    pub pending: Vec<Vec<usize>>,
+    /// input triangles, followed by the virtual ones
+    pub triangles: Vec<[usize; 3]>,
+    pub n_input_triangles: usize,
+}
+
+#[derive(Clone, Debug, Default)]
+pub struct Partition {
+    pub shell_of_triangle: Vec<usize>,
+    /// per shell: the faces taken as covered by a triangle of the shell
+    pub covered: Vec<Vec<bool>>,
+    /// per shell: the cells taken as inside
+    pub inside: Vec<Vec<bool>>,
+    pub n_splits: usize,
+}
+
+#[derive(Default)]
+pub struct Recorder {
+    /// keep every n-th intermediate snapshot, 0 for none
+    pub stage_every: usize,
+    pub n_splits: usize,
+    pub stages: Vec<Snapshot>,
+    pub last: Option<(Snapshot, Partition)>,
+}
+
+thread_local! {
+    pub static RECORDER: RefCell<Option<Recorder>> = const { RefCell::new(None) };
+}
+
+pub(crate) fn after_split(complex: &BSPComplex) {
+    RECORDER.with(|r| {
+        if let Some(r) = r.borrow_mut().as_mut() {
+            r.n_splits += 1;
+            if r.stage_every > 0 && r.n_splits % r.stage_every == 0 {
+                r.stages.push(complex.verif_snapshot());
+            }
+        }
+    });
+}
+
+pub(crate) fn after_partition(
+    complex: &BSPComplex,
+    shell_of_triangle: &[usize],
+    covered: &[Vec<bool>],
+    inside: Vec<Vec<bool>>,
+) {
+    RECORDER.with(|r| {
+        if let Some(r) = r.borrow_mut().as_mut() {
+            r.last = Some((
+                complex.verif_snapshot(),
+                Partition {
+                    shell_of_triangle: shell_of_triangle.to_vec(),
+                    covered: covered.to_vec(),
+                    inside,
+                    n_splits: r.n_splits,
+                },
+            ));
+        }
+    });
+}
-- 
2.43.0


From d2b73710c040e6258a6fbe8d012e3e0b90e588d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 18/30] fix: virtual constraints stand on the side of the
 triangles they were collected for

---
 src/polygonlization/conforming_mesh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..e62db37 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -40,7 +40,9 @@ impl Constraints {
         // make edge map: (va, vb) -> (tid, hid)
         let mut edge_map: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
         for (idx, tri) in self.triangles.chunks(3).enumerate() {
-            for (i, (&va, &vb)) in tri.iter().circular_tuple_windows().enumerate() {
+            for i in 0..3 {
+                // a halfedge is identified by the corner opposite to it
+                let (va, vb) = (tri[(i + 1) % 3], tri[(i + 2) % 3]);
                 let key = if va < vb { (va, vb) } else { (vb, va) };
                 if let Some(vec) = edge_map.get_mut(&key) {
                     vec.push((idx, i));
-- 
2.43.0


From 226a6432ffac8c69bbcd52c9e44f7af60fce0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:01 +0000
Subject: [PATCH 19/30] fix: a tetrahedron is cut by a triangle whose outline
 runs through three corners of the section

---
 src/polygonlization/conforming_mesh.rs | 44 +++++---------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index e62db37..76bb566 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -166,24 +166,6 @@ struct IntersectInfo<A: Allocator + Copy> {
     visited: Vec<bool, A>,
 }
 
-#[inline(always)]
-fn vert_inner_segment_cross<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u1: usize,
-    u2: usize,
-    v1: usize,
-    v2: usize,
-    allocator: A,
-) -> bool {
-    inner_segments_cross(
-        mesh.point(u1),
-        mesh.point(u2),
-        mesh.point(v1),
-        mesh.point(v2),
-        allocator,
-    )
-}
-
 #[inline(always)]
 fn vert_inner_segment_cross_inner_triangle<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -885,24 +867,14 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
     pos_vs: &[usize],
     bump: A,
 ) -> bool {
-    let mut all_cross = true;
-    for &nv in neg_vs {
-        if !all_cross {
-            break;
-        }
-        for &pv in pos_vs {
-            if !c
-                .iter()
-                .circular_tuple_windows()
-                .any(|(&va, &vb)| vert_inner_segment_cross(mesh, nv, pv, va, vb, bump))
-            {
-                all_cross = false;
-                break;
-            }
-        }
-    }
-
-    if all_cross {
+    // the plane of the triangle cuts the tet in a convex polygon, one corner on each of these
+    // edges: three corners in the closed triangle are enough for a common area
+    let n_corners_in = neg_vs
+        .iter()
+        .cartesian_product(pos_vs)
+        .filter(|&(&nv, &pv)| vert_inner_segment_cross_triangle(mesh, nv, pv, c, bump))
+        .count();
+    if n_corners_in > 2 {
         return true;
     }
 
-- 
2.43.0


From c369050748f73744382bd9b0d0fd4cb50ef8f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:03 +0000
Subject: [PATCH 20/30] fix: a shell that ends where a coplanar triangle of
 another shell begins is cut off there

---
 src/polygonlization/conforming_mesh.rs | 21 +++++++++++++++------
 src/polygonlization/mod.rs             |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 76bb566..a69e24b 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -36,7 +36,7 @@ impl Constraints {
         &self.triangles[start..(start + 3)]
     }
 
-    pub fn place_virtual_constraints(&mut self, tet_mesh: &TetMesh) {
+    pub fn place_virtual_constraints(&mut self, tet_mesh: &TetMesh, tri_in_shells: &[usize]) {
         // make edge map: (va, vb) -> (tid, hid)
         let mut edge_map: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
         for (idx, tri) in self.triangles.chunks(3).enumerate() {
@@ -54,7 +54,7 @@ impl Constraints {
         let mut bump = Bump::new();
         for halfedges in edge_map.into_values() {
             bump.reset();
-            self.add_virtual_constraint(tet_mesh, halfedges, &bump);
+            self.add_virtual_constraint(tet_mesh, halfedges, tri_in_shells, &bump);
         }
     }
 
@@ -62,6 +62,7 @@ impl Constraints {
         &mut self,
         tet_mesh: &TetMesh,
         halfedges: Vec<(usize, usize)>,
+        tri_in_shells: &[usize],
         bump: &Bump,
     ) {
         // At least one half edge has been guaranteed
@@ -93,17 +94,25 @@ impl Constraints {
                 let pb = point2(tet_mesh.point(triangle0[(hid0 + 2) % 3]), axis);
                 let mut pc = point2(tet_mesh.point(apex), axis);
                 let base_ori = double_to_sign(predicates::orient2d(&pa, &pb, &pc, bump));
-                for &(tid, hid) in &halfedges[1..] {
+                // the sides of the edge each shell lies on
+                let mut sides: HashMap<usize, (bool, bool)> = HashMap::new();
+                for &(tid, hid) in &halfedges {
                     let triangle = self.triangle(tid);
                     apex = triangle[hid];
                     pc = point2(tet_mesh.point(apex), axis);
-                    if double_to_sign(predicates::orient2d(&pa, &pb, &pc, bump)) != base_ori {
-                        return;
+                    let side = sides.entry(tri_in_shells[tid]).or_default();
+                    if double_to_sign(predicates::orient2d(&pa, &pb, &pc, bump)) == base_ori {
+                        side.0 = true;
+                    } else {
+                        side.1 = true;
                     }
                 }
+                if sides.values().all(|&(a, b)| a && b) {
+                    return;
+                }
             }
 
-            // all triangles are on the same side and coplanar
+            // all triangles are coplanar and some shell ends here
             let tet_id = tet_mesh.p2t[triangle0[0]];
             let tet = &tet_mesh.tets[tet_id].data;
             apex = tet[0];
diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 9448e55..5f7972d 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -66,7 +66,7 @@ fn make_mesh_for_proper_triangles(
 ) -> (Vec<f64>, Vec<usize>) {
     let mut constraints = Constraints::new(triangles);
     let mut tet_mesh = tetrahedralize(points);
-    constraints.place_virtual_constraints(&tet_mesh);
+    constraints.place_virtual_constraints(&tet_mesh, tri_in_shells);
     let tet_marks = constraints.insert_constraints(&mut tet_mesh);
     let mut complex = BSPComplex::new(tet_mesh, &constraints, tet_marks);
     {
-- 
2.43.0


From 50658aace7fe3b4db8e4f01a6652d4e2c22e72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 21/30] fix: an outline too thin for its rounded positions is
 triangulated without them

The outlines of the kept faces are triangulated at rounded positions. Where
rounding makes parts of an outline touch, triangulate got an input it cannot
handle (it panicked, did not return or left the result open), and the sign of
a rounded area chose the wrong side of thin outlines. Such outlines are now
cut into fans, the orientation comes from an exact test, and loops of one
face share the vertices at which they touch.
---
 src/polygonlization/bsp_complex.rs | 113 ++++++++++++++++++++++-------
 1 file changed, 87 insertions(+), 26 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 10b9d69..9ab3676 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -836,10 +836,11 @@ impl BSPComplex {
                         .flatten(),
                 );
 
-                // reset
-                for &vid in face_loop {
-                    loop_vert_indices[vid] = INVALID_IND;
-                }
+            }
+
+            // reset, loops may touch each other at a vertex
+            for &vid in face_verts.iter().flatten() {
+                loop_vert_indices[vid] = INVALID_IND;
             }
 
             if face_verts.len() == 1 && face_verts[0].len() == 3 {
@@ -847,23 +848,21 @@ impl BSPComplex {
                 continue;
             }
 
-            let loop_areas = {
+            if !is_simple_outline(&points_2d, &segments, &bump) {
+                // the outline is too thin for the rounded positions
                 let mut start = 0;
-                Vec::from_iter(face_verts.iter().map(|l| {
-                    let end = start + l.len();
-                    let area = poly_area(&points_2d, &segments[(start << 1)..(end << 1)]);
+                for face_loop in &face_verts {
+                    let end = start + (face_loop.len() << 1);
+                    let first = segments[start];
+                    for ab in segments[(start + 2)..(end - 2)].chunks(2) {
+                        triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
+                    }
                     start = end;
-                    area
-                }))
-            };
-
-            let max_loop_idx = loop_areas
-                .iter()
-                .map(|v| v.abs())
-                .position_max_by(|a, b| a.partial_cmp(b).unwrap())
-                .unwrap();
+                }
+                continue;
+            }
 
-            if loop_areas[max_loop_idx] < 0.0 {
+            if !is_counterclockwise(&points_2d, &segments, &bump) {
                 for p in points_2d.chunks_mut(2) {
                     p.swap(0, 1);
                 }
@@ -2021,13 +2020,75 @@ fn vert_in_tri(orientations: &[Orientation]) -> bool {
     true
 }
 
-#[inline(always)]
-fn poly_area(points: &[f64], poly: &[usize]) -> f64 {
-    poly.chunks(2)
-        .map(|ab| {
-            let pa = &points[(ab[0] << 1)..];
-            let pb = &points[(ab[1] << 1)..];
-            pa[0] * pb[1] - pa[1] * pb[0]
+/// Whether the outline has its inside to the left, by the lowest segment at its leftmost point.
+fn is_counterclockwise<A: Allocator + Copy>(points: &[f64], segments: &[usize], bump: A) -> bool {
+    let pt = |idx: usize| &points[(idx << 1)..((idx << 1) + 2)];
+    let left = *segments
+        .iter()
+        .min_by(|&&a, &&b| pt(a).partial_cmp(pt(b)).unwrap())
+        .unwrap();
+    let lowest = segments
+        .chunks(2)
+        .filter(|ab| ab.contains(&left))
+        .reduce(|ab, cd| {
+            let [p, q] = [ab, cd].map(|s| pt(if s[0] == left { s[1] } else { s[0] }));
+            if crate::predicates::orient2d(pt(left), p, q, bump) < 0.0 {
+                cd
+            } else {
+                ab
+            }
         })
-        .sum::<f64>()
+        .unwrap();
+    lowest[0] == left
+}
+
+/// Whether the segments meet each other only at common end points.
+fn is_simple_outline<A: Allocator + Copy>(points: &[f64], segments: &[usize], bump: A) -> bool {
+    let pt = |idx: usize| &points[(idx << 1)..((idx << 1) + 2)];
+    let ori = |a: usize, b: usize, c: usize| {
+        double_to_sign(crate::predicates::orient2d(pt(a), pt(b), pt(c), bump))
+    };
+    let range = |ab: &[usize], i: usize| {
+        let (a, b) = (pt(ab[0])[i], pt(ab[1])[i]);
+        (a.min(b), a.max(b))
+    };
+    let mut sorted = Vec::from_iter(segments.chunks(2));
+    sorted.sort_by(|a, b| range(a, 0).0.total_cmp(&range(b, 0).0));
+    for (i, ab) in sorted.iter().enumerate() {
+        if pt(ab[0]) == pt(ab[1]) {
+            return false;
+        }
+        let (x_range, y_range) = (range(ab, 0), range(ab, 1));
+        for cd in &sorted[(i + 1)..] {
+            if range(cd, 0).0 > x_range.1 {
+                break;
+            }
+            let cd_y_range = range(cd, 1);
+            if cd_y_range.0 > y_range.1 || cd_y_range.1 < y_range.0 {
+                continue;
+            }
+            let (c_on_ab, d_on_ab) = (ab.contains(&cd[0]), ab.contains(&cd[1]));
+            if c_on_ab && d_on_ab {
+                return false;
+            }
+            if c_on_ab || d_on_ab {
+                let (o, q) = if c_on_ab { (cd[0], cd[1]) } else { (cd[1], cd[0]) };
+                let p = if ab[0] == o { ab[1] } else { ab[0] };
+                let same_side = |i: usize| (pt(p)[i] - pt(o)[i]) * (pt(q)[i] - pt(o)[i]) >= 0.0;
+                if ori(o, p, q) == Orientation::Zero && same_side(0) && same_side(1) {
+                    return false;
+                }
+            } else {
+                let on_one_side = |[a, b]: [usize; 2], [c, d]: [usize; 2]| {
+                    let o = ori(a, b, c);
+                    o != Orientation::Zero && o == ori(a, b, d)
+                };
+                let (s, t) = ([ab[0], ab[1]], [cd[0], cd[1]]);
+                if !on_one_side(s, t) && !on_one_side(t, s) {
+                    return false;
+                }
+            }
+        }
+    }
+    true
 }
-- 
2.43.0


From d365a25e99e2364baf3a022af5a1c7364aa88bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 22/30] Observation hook keeps fewer snapshots

---
 src/polygonlization/verif.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/verif.rs b/src/polygonlization/verif.rs
index ce64d3f..899ce85 100644
--- a/src/polygonlization/verif.rs
+++ b/src/polygonlization/verif.rs
@@ -63,7 +63,7 @@ pub struct Partition {
 
 #[derive(Default)]
 pub struct Recorder {
-    /// keep every n-th intermediate snapshot, 0 for none
+    /// keep the snapshots after this many splits and after every doubling of it, 0 for none
     pub stage_every: usize,
     pub n_splits: usize,
     pub stages: Vec<Snapshot>,
@@ -78,7 +78,7 @@ pub(crate) fn after_split(complex: &BSPComplex) {
     RECORDER.with(|r| {
         if let Some(r) = r.borrow_mut().as_mut() {
             r.n_splits += 1;
-            if r.stage_every > 0 && r.n_splits % r.stage_every == 0 {
+            if r.n_splits == r.stage_every << r.stages.len() {
                 r.stages.push(complex.verif_snapshot());
             }
         }
-- 
2.43.0


From 05adff4217d9f8e7ba9a090138e0fbdb7e6f3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 23/30] fix: fans of an outline that touches itself have no
 triangle with a repeated corner

---
 src/polygonlization/bsp_complex.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 9ab3676..cf55a5a 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -855,7 +855,9 @@ impl BSPComplex {
                     let end = start + (face_loop.len() << 1);
                     let first = segments[start];
                     for ab in segments[(start + 2)..(end - 2)].chunks(2) {
-                        triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
+                        if !ab.contains(&first) {
+                            triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
+                        }
                     }
                     start = end;
                 }
-- 
2.43.0


From adc9a9dca0a579a875a76eeac4faa3b3f620909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 24/30] fix: the search inside a triangle goes through
 tetrahedra that only touch it

A face of a tetrahedron deep inside a triangle may be reachable only through
tetrahedra that touch the triangle's plane at an edge or a corner.
---
 src/polygonlization/conforming_mesh.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index a69e24b..da76ed8 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -922,6 +922,8 @@ fn interior_intersections<A: Allocator + Copy>(
                 let t = constraint_intersect_tet_type(mesh, triangle, adj_tid, bump);
                 if t < 5 {
                     tet_marks[t][adj_tid].push(cid);
+                }
+                if t < 6 {
                     info.intersected.push(adj_tid);
                 }
             }
@@ -930,6 +932,8 @@ fn interior_intersections<A: Allocator + Copy>(
     }
 }
 
+/// 0..4: the face against this corner lies in the triangle, 4: the triangle cuts the tet,
+/// 5: the tet has a corner in the triangle but stays on one side, 6: otherwise
 fn constraint_intersect_tet_type<A: Allocator + Copy>(
     mesh: &TetMesh,
     c: &[usize],
@@ -937,7 +941,7 @@ fn constraint_intersect_tet_type<A: Allocator + Copy>(
     bump: A,
 ) -> usize {
     if mesh.is_hull_tet(tid) {
-        return 5;
+        return 6;
     }
     let verts = &mesh.tets[tid].data;
     let mut oris = [Orientation::Undefined; 4];
@@ -984,7 +988,7 @@ fn constraint_intersect_tet_type<A: Allocator + Copy>(
                     }
                 }
             }
-            return 5;
+            return 6;
         }
     }
 }
-- 
2.43.0


From 356a7fbc294338d2d91fa4803f7cfa2f0777c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 25/30] fix: the next outline edge at a shared vertex is looked
 up by vertex and edge

The same edge may end at two such vertices, in two faces of a group.
---
 src/polygonlization/bsp_complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index cf55a5a..ffc0403 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1037,7 +1037,7 @@ impl BSPComplex {
                         if face_signs[fid] < 0 {
                             std::mem::swap(&mut ha, &mut hb);
                         }
-                        he_next_map.insert(*ha, *hb);
+                        he_next_map.insert((v, *ha), *hb);
                     }
                 }
             }
@@ -1073,7 +1073,7 @@ impl BSPComplex {
                             let mut cur = he.0;
                             let next_hid;
                             loop {
-                                let next = *he_next_map.get(&cur).unwrap();
+                                let next = *he_next_map.get(&(vb, cur)).unwrap();
                                 if let Some(&hid) =
                                     group.iter().find(|&&idx| halfedges[idx].0 == next)
                                 {
-- 
2.43.0


From 28811f0a2b7141fa56ef939cb5bb9afdd446e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 26/30] fix: triangles of an outline that rounding turned over
 are replaced by fans

---
 src/polygonlization/bsp_complex.rs | 55 ++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index ffc0403..07fad05 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -848,30 +848,32 @@ impl BSPComplex {
                 continue;
             }
 
-            if !is_simple_outline(&points_2d, &segments, &bump) {
-                // the outline is too thin for the rounded positions
-                let mut start = 0;
-                for face_loop in &face_verts {
-                    let end = start + (face_loop.len() << 1);
-                    let first = segments[start];
-                    for ab in segments[(start + 2)..(end - 2)].chunks(2) {
-                        if !ab.contains(&first) {
-                            triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
-                        }
+            if is_simple_outline(&points_2d, &segments, &bump) {
+                if !is_counterclockwise(&points_2d, &segments, &bump) {
+                    for p in points_2d.chunks_mut(2) {
+                        p.swap(0, 1);
                     }
-                    start = end;
                 }
-                continue;
-            }
 
-            if !is_counterclockwise(&points_2d, &segments, &bump) {
-                for p in points_2d.chunks_mut(2) {
-                    p.swap(0, 1);
+                let face_triangles = triangulate(&points_2d, &segments, &bump);
+                if is_bounded_by(&face_triangles, &segments) {
+                    triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
+                    continue;
                 }
             }
 
-            let face_triangles = triangulate(&points_2d, &segments, &bump);
-            triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
+            // the outline is too thin for the rounded positions
+            let mut start = 0;
+            for face_loop in &face_verts {
+                let end = start + (face_loop.len() << 1);
+                let first = segments[start];
+                for ab in segments[(start + 2)..(end - 2)].chunks(2) {
+                    if !ab.contains(&first) {
+                        triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
+                    }
+                }
+                start = end;
+            }
         }
         (out_points, triangles)
     }
@@ -2094,3 +2096,20 @@ fn is_simple_outline<A: Allocator + Copy>(points: &[f64], segments: &[usize], bu
     }
     true
 }
+
+/// Whether the boundary of the triangles is exactly the outline.
+fn is_bounded_by(triangles: &[usize], outline: &[usize]) -> bool {
+    let mut counts = HashMap::new();
+    let mut count = |a: usize, b: usize, n: i32| {
+        *counts.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { n } else { -n };
+    };
+    for tri in triangles.chunks(3) {
+        for (&a, &b) in tri.iter().circular_tuple_windows() {
+            count(a, b, 1);
+        }
+    }
+    for ab in outline.chunks(2) {
+        count(ab[0], ab[1], -1);
+    }
+    counts.into_values().all(|n| n == 0)
+}
-- 
2.43.0


From 960f6af63e6233daca3dd82dd0a614fbf14e3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:12 +0000
Subject: [PATCH 27/30] fix: exact implicit points are normalised to a
 magnitude whose products do not underflow

---
 src/predicates/generic_point.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/predicates/generic_point.rs b/src/predicates/generic_point.rs
index 3b1d565..f159c0f 100644
--- a/src/predicates/generic_point.rs
+++ b/src/predicates/generic_point.rs
@@ -37,9 +37,11 @@ fn normalize_lambda3d(x: &mut [f64], y: &mut [f64], z: &mut [f64], d: &mut [f64]
         .map(|arr| estimate(arr))
         .max_by(|x, y| x.abs().total_cmp(&y.abs()))
         .unwrap();
-    let e = get_exponent(max_val);
+    // Products of up to six of these values are formed: a large magnitude keeps
+    // their smallest components from underflowing without letting them overflow.
+    let e = 150 - get_exponent(max_val);
     if e != 0 {
-        let s = 2.0f64.powi(-e);
+        let s = 2.0f64.powi(e.min(1023));
         for arr in data {
             for val in arr {
                 *val *= s;
-- 
2.43.0


From ed14a9931e5a47b9931ad77dbe70736ddd955eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:16 +0000
Subject: [PATCH 28/30] fix: an outline too thin for its rounded positions is
 triangulated by its exact points

---
 src/polygonlization/bsp_complex.rs | 174 ++++++++++++++++++++++++++---
 1 file changed, 159 insertions(+), 15 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 07fad05..f74ee8d 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1,5 +1,5 @@
 use core::panic;
-use std::{alloc::Allocator, array::from_fn, ops::Deref};
+use std::{alloc::Allocator, array::from_fn, cmp::Ordering, ops::Deref};
 
 use bumpalo::Bump;
 use itertools::Itertools;
@@ -11,9 +11,9 @@ use crate::{
     math::{cross, norm, sub},
     mesh::{EdgeId, ElementId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId},
     predicates::{
-        double_to_sign, max_comp_in_tri_normal, orient2d, orient2d_by_axis, orient3d::orient3d,
-        sign_reverse, sign_reversed, ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI,
-        ImplicitPointTPI, Orientation, Point3D,
+        double_to_sign, less_than_on_x, less_than_on_y, less_than_on_z, max_comp_in_tri_normal,
+        orient2d, orient2d_by_axis, orient3d::orient3d, sign_reverse, sign_reversed,
+        ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Orientation, Point3D,
     },
     triangle::{triangulate, TetMesh},
     INVALID_IND,
@@ -863,17 +863,8 @@ impl BSPComplex {
             }
 
             // the outline is too thin for the rounded positions
-            let mut start = 0;
-            for face_loop in &face_verts {
-                let end = start + (face_loop.len() << 1);
-                let first = segments[start];
-                for ab in segments[(start + 2)..(end - 2)].chunks(2) {
-                    if !ab.contains(&first) {
-                        triangles.extend([first, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
-                    }
-                }
-                start = end;
-            }
+            let face_triangles = triangulate_outline(face_verts, &self.points, axis, &bump);
+            triangles.extend(face_triangles.into_iter().map(|vid| v_old_to_new[vid]));
         }
         (out_points, triangles)
     }
@@ -2113,3 +2104,156 @@ fn is_bounded_by(triangles: &[usize], outline: &[usize]) -> bool {
     }
     counts.into_values().all(|n| n == 0)
 }
+
+/// Triangulate the outline by its exact points. The triangles are oriented like the outline.
+fn triangulate_outline<A: Allocator + Copy>(
+    mut loops: Vec<Vec<VertexId>>,
+    points: &[Point3D],
+    axis: usize,
+    bump: A,
+) -> Vec<VertexId> {
+    let coord_cmp = |a: VertexId, b: VertexId, i: usize| {
+        let (pa, pb) = (&points[a], &points[b]);
+        match i {
+            0 => less_than_on_x(pa, pb, bump),
+            1 => less_than_on_y(pa, pb, bump),
+            _ => less_than_on_z(pa, pb, bump),
+        }
+    };
+    let cmp = |a: VertexId, b: VertexId| {
+        let ori = match coord_cmp(a, b, (axis + 1) % 3) {
+            Orientation::Zero => coord_cmp(a, b, (axis + 2) % 3),
+            ori => ori,
+        };
+        match ori {
+            Orientation::Negative => Ordering::Less,
+            Orientation::Positive => Ordering::Greater,
+            _ => Ordering::Equal,
+        }
+    };
+    let plane_ori = |a: VertexId, b: VertexId, c: VertexId| {
+        orient2d::orient2d_by_axis(&points[a], &points[b], &points[c], axis, bump)
+    };
+
+    // the loop that bounds the outline is on its leftmost point, by the lowest segment there
+    let left = *loops.iter().flatten().min_by(|&&a, &&b| cmp(a, b)).unwrap();
+    let (outer, lowest) = loops
+        .iter()
+        .enumerate()
+        .flat_map(|(i, verts)| verts.iter().circular_tuple_windows().map(move |(&a, &b)| (i, [a, b])))
+        .filter(|(_, ab)| ab.contains(&left))
+        .reduce(|s, t| {
+            let [p, q] = [s.1, t.1].map(|[a, b]| if a == left { b } else { a });
+            if plane_ori(left, p, q) == Orientation::Negative {
+                t
+            } else {
+                s
+            }
+        })
+        .unwrap();
+    let is_reversed = lowest[0] != left;
+    let ori = |a: VertexId, b: VertexId, c: VertexId| {
+        let ori = plane_ori(a, b, c);
+        if is_reversed {
+            sign_reverse(ori)
+        } else {
+            ori
+        }
+    };
+    // whether `q` is strictly between `vb` and `va`, to the left of the corner `a`, `v`, `b`
+    let in_corner = |[a, v, b]: [VertexId; 3], q: VertexId| {
+        let left_of_av = ori(a, v, q) == Orientation::Positive;
+        let left_of_vb = ori(v, b, q) == Orientation::Positive;
+        if ori(a, v, b) == Orientation::Positive {
+            left_of_av && left_of_vb
+        } else {
+            left_of_av || left_of_vb
+        }
+    };
+    let on_one_side = |[a, b]: [VertexId; 2], [c, d]: [VertexId; 2]| {
+        let o = ori(a, b, c);
+        o != Orientation::Zero && o == ori(a, b, d)
+    };
+    // whether the segments have more in common than an end point
+    let conflicts = |s: [VertexId; 2], t: [VertexId; 2]| {
+        let collinear = t.iter().all(|&v| ori(s[0], s[1], v) == Orientation::Zero);
+        if collinear {
+            let sort = |[a, b]: [VertexId; 2]| if cmp(a, b).is_lt() { (a, b) } else { (b, a) };
+            let ((s0, s1), (t0, t1)) = (sort(s), sort(t));
+            cmp(s0, t1).is_lt() && cmp(t0, s1).is_lt()
+        } else {
+            !s.iter().any(|v| t.contains(v)) && !on_one_side(s, t) && !on_one_side(t, s)
+        }
+    };
+    let corner = |verts: &[VertexId], i: usize| {
+        let n = verts.len();
+        [verts[(i + n - 1) % n], verts[i], verts[(i + 1) % n]]
+    };
+
+    // cut the outline open between its loops
+    let mut poly = loops.swap_remove(outer);
+    while !loops.is_empty() {
+        let is_bridge = |h: usize, i: usize, j: usize| {
+            let (v, w) = (poly[i], loops[h][j]);
+            if v == w {
+                return in_corner(corner(&poly, i), loops[h][(j + 1) % loops[h].len()]);
+            }
+            in_corner(corner(&poly, i), w)
+                && in_corner(corner(&loops[h], j), v)
+                && std::iter::once(&poly).chain(&loops).all(|verts| {
+                    verts
+                        .iter()
+                        .circular_tuple_windows()
+                        .all(|(&a, &b)| !conflicts([v, w], [a, b]))
+                })
+        };
+        let (h, i, j) = (0..loops.len())
+            .flat_map(|h| (0..loops[h].len()).map(move |j| (h, j)))
+            .flat_map(|(h, j)| (0..poly.len()).map(move |i| (h, i, j)))
+            .find(|&(h, i, j)| is_bridge(h, i, j))
+            .unwrap_or((0, 0, 0));
+        let hole = loops.swap_remove(h);
+        let n = hole.len();
+        if poly[i] == hole[j] {
+            poly.splice((i + 1)..(i + 1), (1..=n).map(|k| hole[(j + k) % n]));
+        } else {
+            let v = poly[i];
+            let bridged = (0..=n).map(|k| hole[(j + k) % n]).chain([v]);
+            poly.splice((i + 1)..(i + 1), bridged);
+        }
+    }
+
+    let mut triangles = Vec::new();
+    while poly.len() > 2 {
+        let corners = Vec::from_iter((0..poly.len()).map(|i| corner(&poly, i)));
+        if let Some(i) = corners.iter().position(|[a, _, c]| a == c) {
+            let next = (i + 1) % poly.len();
+            poly.remove(i.max(next));
+            poly.remove(i.min(next));
+            continue;
+        }
+
+        let is_convex = |&[a, b, c]: &[VertexId; 3]| ori(a, b, c) == Orientation::Positive;
+        let is_ear = |abc: &[VertexId; 3]| {
+            let [a, b, c] = *abc;
+            is_convex(abc)
+                && corners.iter().all(|&[p, v, q]| {
+                    if v == b {
+                        return [p, q].iter().all(|x| abc.contains(x) || !in_corner(*abc, *x));
+                    }
+                    abc.contains(&v)
+                        || [(a, b), (b, c), (c, a)]
+                            .into_iter()
+                            .any(|(s, t)| ori(s, t, v) == Orientation::Negative)
+                })
+        };
+        let i = corners
+            .iter()
+            .position(is_ear)
+            .or_else(|| corners.iter().position(is_convex))
+            .unwrap_or(0);
+        triangles.extend(corners[i]);
+        poly.remove(i);
+    }
+    triangles
+}
-- 
2.43.0


From 4e9049fe79c16886f04881071e8587bcd4a2bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:43 +0000
Subject: [PATCH 29/30] fix: coplanar triangles are compared in orientation on
 one axis

---
 src/polygonlization/bsp_complex.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index f74ee8d..460520a 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -296,11 +296,15 @@ impl BSPComplex {
         // save the orientation of the triangle for other coplanar triangles
         if coplanar_triangles.len() > 1 {
             let base_tri_ori = self.tri_orientations[tid];
-            for &vid in &cell_verts {
-                let ori = *self.vert_orientations[tid].get(&vid).unwrap();
-                for i in 0..coplanar_triangles.len() - 1 {
-                    let coplanar_tid = coplanar_triangles[i];
-                    let coplanar_ori = self.tri_orientations[coplanar_tid];
+            let axis = self.tri_axes[tid];
+            for &coplanar_tid in &coplanar_triangles[..coplanar_triangles.len() - 1] {
+                // two components of the normal may be equally large, orientations are comparable
+                // on the same axis only
+                let [pa, pb, pc] =
+                    from_fn(|i| &self.points[triangle(coplanar_tid, &self.constraints)[i]]);
+                let coplanar_ori = orient2d::orient2d_by_axis(pa, pb, pc, axis, bump);
+                for &vid in &cell_verts {
+                    let ori = *self.vert_orientations[tid].get(&vid).unwrap();
                     if base_tri_ori == coplanar_ori {
                         self.vert_orientations[coplanar_tid].insert(vid, ori);
                     } else {
-- 
2.43.0


From fb04aebc0b80b230f1c18935bb6f9051977e4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:41 +0000
Subject: [PATCH 30/30] fix: a face is looked up on all its triangles along one
 axis

---
 src/polygonlization/bsp_complex.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 460520a..d06da2a 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -667,12 +667,10 @@ impl BSPComplex {
                 &bump,
             )];
 
-            let center_in_face = self.point_in_face(
-                fid,
-                &face_centers[fid],
-                self.tri_axes[face_triangles[0]],
-                &bump,
-            );
+            // The center is rounded, so that its projection depends on the axis. All triangles are
+            // compared on one axis, or the center may be missed by both sides of a common edge.
+            let axis = self.tri_axes[first_tid];
+            let center_in_face = self.point_in_face(fid, &face_centers[fid], axis, &bump);
 
             for &tid in face_triangles {
                 let shell_id = tri_in_shell[tid];
@@ -684,8 +682,6 @@ impl BSPComplex {
                 let pb = point(&explicit_points, *tri[1]);
                 let pc = point(&explicit_points, *tri[2]);
 
-                let axis = self.tri_axes[tid];
-
                 let face_intersects_tri = if center_in_face {
                     let center = face_centers[fid].explicit().unwrap();
                     let orientations = [
-- 
2.43.0


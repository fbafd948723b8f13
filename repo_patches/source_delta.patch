From 40db1b8d6893960b1e907926894b45ea846222fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 01/56] fix: k-d tree knearest compared against an arbitrary
 instead of the farthest candidate

---
 src/kd_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..84af55b 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,7 +408,7 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
-        if pc.len() > max_size {
+        if pc.len() >= max_size {
             pc.sort_by(|a, b| {
                 sqr_dist_3d(search, a)
                     .partial_cmp(&sqr_dist_3d(search, b))
-- 
2.43.0


From 74ec0d56374cf5fd71582fcf2d39de05d23ea174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 02/56] fix: hash of 0.0 and -0.0 must agree since the values
 are equal

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..6b9acd1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    // adding 0.0 maps -0.0 to 0.0, since they're equal they must hash equally
+    (x + 0.0).to_bits().hash(state);
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From 37bf2d399b48f2dbf8f15b6d5c4d3878f20847bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 03/56] fix: octree lost every point lying on a cell boundary
 or in an unsplittable cell

---
 src/oc_tree.rs | 134 ++++++++++++++++++++++++++++---------------------
 1 file changed, 77 insertions(+), 57 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..42db022 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -64,7 +64,11 @@ where
         }
 
         unique_data.extend(set.into_iter());
-        self.root = Some(OcNode::new(&self.bb, unique_data)?);
+        self.root = Some(OcNode::new(
+            &self.bb.min_p(),
+            &self.bb.max_p(),
+            unique_data,
+        ));
 
         Ok(())
     }
@@ -191,10 +195,12 @@ where
     P: IsBuildable3D + Clone,
 {
     /// Creates a new OcNode from a min and max position and the data it should hold
-    pub fn new(bb: &BoundingBox3D, pc: Vec<P>) -> Result<OcNode<P>> {
+    pub fn new(min: &Point3D, max: &Point3D, pc: Vec<P>) -> OcNode<P> {
         if pc.len() == 1 {
-            return Ok(OcNode::Leaf(pc[0].clone()));
+            return OcNode::Leaf(pc[0].clone());
         };
+        let middle = Self::calc_middle(min, max);
+
         let mut pcppp = Vec::new();
         let mut pcppn = Vec::new();
         let mut pcpnp = Vec::new();
@@ -204,32 +210,25 @@ where
         let mut pcnnp = Vec::new();
         let mut pcnnn = Vec::new();
 
-        let bbppp = Self::calc_sub_min_max(Direction::PPP, bb)?;
-        let bbppn = Self::calc_sub_min_max(Direction::PPN, bb)?;
-        let bbpnp = Self::calc_sub_min_max(Direction::PNP, bb)?;
-        let bbpnn = Self::calc_sub_min_max(Direction::PNN, bb)?;
-        let bbnpp = Self::calc_sub_min_max(Direction::NPP, bb)?;
-        let bbnpn = Self::calc_sub_min_max(Direction::NPN, bb)?;
-        let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
-        let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
+        let bbppp = Self::calc_sub_min_max(Direction::PPP, min, &middle, max);
+        let bbppn = Self::calc_sub_min_max(Direction::PPN, min, &middle, max);
+        let bbpnp = Self::calc_sub_min_max(Direction::PNP, min, &middle, max);
+        let bbpnn = Self::calc_sub_min_max(Direction::PNN, min, &middle, max);
+        let bbnpp = Self::calc_sub_min_max(Direction::NPP, min, &middle, max);
+        let bbnpn = Self::calc_sub_min_max(Direction::NPN, min, &middle, max);
+        let bbnnp = Self::calc_sub_min_max(Direction::NNP, min, &middle, max);
+        let bbnnn = Self::calc_sub_min_max(Direction::NNN, min, &middle, max);
 
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match Self::calc_direction(&middle, &p) {
+                Direction::PPP => pcppp.push(p),
+                Direction::PPN => pcppn.push(p),
+                Direction::PNP => pcpnp.push(p),
+                Direction::PNN => pcpnn.push(p),
+                Direction::NPP => pcnpp.push(p),
+                Direction::NPN => pcnpn.push(p),
+                Direction::NNP => pcnnp.push(p),
+                Direction::NNN => pcnnn.push(p),
             }
         }
 
@@ -253,13 +252,49 @@ where
             nnn,
         };
 
-        Ok(OcNode::Node(result))
+        OcNode::Node(result)
     }
-    /// Calculates the min and max values of sub nodes of an OcTree
-    fn calc_sub_min_max(dir: Direction, bb: &BoundingBox3D) -> Result<BoundingBox3D> {
-        let (min, max) = (bb.min_p(), bb.max_p());
-        let middle = center_3d(&min, &max);
+    /// Calculates the position the sub nodes are split at, always < max for any dimension with min < max
+    fn calc_middle(min: &Point3D, max: &Point3D) -> Point3D {
+        let middle = |min: f64, max: f64| {
+            let m = min + (max - min) / 2.0;
+            if m < max {
+                m
+            } else {
+                min
+            }
+        };
 
+        Point3D::new(
+            middle(min.x(), max.x()),
+            middle(min.y(), max.y()),
+            middle(min.z(), max.z()),
+        )
+    }
+    /// Calculates which sub node a position belongs to
+    fn calc_direction(middle: &Point3D, p: &P) -> Direction {
+        match (
+            p.x() > middle.x(),
+            p.y() > middle.y(),
+            p.z() > middle.z(),
+        ) {
+            (true, true, true) => Direction::PPP,
+            (true, true, false) => Direction::PPN,
+            (true, false, true) => Direction::PNP,
+            (true, false, false) => Direction::PNN,
+            (false, true, true) => Direction::NPP,
+            (false, true, false) => Direction::NPN,
+            (false, false, true) => Direction::NNP,
+            (false, false, false) => Direction::NNN,
+        }
+    }
+    /// Calculates the min and max values of sub nodes of an OcTree
+    fn calc_sub_min_max(
+        dir: Direction,
+        min: &Point3D,
+        middle: &Point3D,
+        max: &Point3D,
+    ) -> (Point3D, Point3D) {
         let px = max.x();
         let py = max.y();
         let pz = max.z();
@@ -271,36 +306,21 @@ where
         let mz = middle.z();
 
         match dir {
-            Direction::PPP => BoundingBox3D::new(&middle, &max),
-            Direction::PPN => {
-                BoundingBox3D::new(&Point3D::new(mx, my, nz), &Point3D::new(px, py, mz))
-            }
-            Direction::PNP => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, mz), &Point3D::new(px, my, pz))
-            }
-            Direction::PNN => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, nz), &Point3D::new(px, my, mz))
-            }
-            Direction::NPP => {
-                BoundingBox3D::new(&Point3D::new(nx, my, mz), &Point3D::new(mx, py, pz))
-            }
-            Direction::NPN => {
-                BoundingBox3D::new(&Point3D::new(nx, my, nz), &Point3D::new(mx, py, mz))
-            }
-            Direction::NNP => {
-                BoundingBox3D::new(&Point3D::new(nx, ny, mz), &Point3D::new(mx, my, pz))
-            }
-            Direction::NNN => BoundingBox3D::new(&min.clone(), &middle),
+            Direction::PPP => (middle.clone(), max.clone()),
+            Direction::PPN => (Point3D::new(mx, my, nz), Point3D::new(px, py, mz)),
+            Direction::PNP => (Point3D::new(mx, ny, mz), Point3D::new(px, my, pz)),
+            Direction::PNN => (Point3D::new(mx, ny, nz), Point3D::new(px, my, mz)),
+            Direction::NPP => (Point3D::new(nx, my, mz), Point3D::new(mx, py, pz)),
+            Direction::NPN => (Point3D::new(nx, my, nz), Point3D::new(mx, py, mz)),
+            Direction::NNP => (Point3D::new(nx, ny, mz), Point3D::new(mx, my, pz)),
+            Direction::NNN => (min.clone(), middle.clone()),
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(pc: Vec<P>, (min, max): &(Point3D, Point3D)) -> Option<Box<OcNode<P>>> {
         match pc.len() {
             0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            _ => Some(Box::new(OcNode::new(min, max, pc))),
         }
     }
 }
-- 
2.43.0


From 8229109eb749091ffb661b51f75e7d75ef154a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 04/56] fix: octree collect overflowed its depth counter on
 deep trees

---
 src/oc_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 42db022..cd0ed57 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -373,14 +373,14 @@ where
     ) {
         if only_collect_centers {
             let mut sub_pc = PointCloud3D::new();
-            n.collect(depth + 1, maxdepth, &mut sub_pc);
+            n.collect(depth.saturating_add(1), maxdepth, &mut sub_pc);
             if let Some(c) = sub_pc.center_of_gravity() {
                 let mut p = P::default();
                 p.from(&c);
                 pc.push(p);
             }
         } else {
-            n.collect(depth + 1, maxdepth, pc);
+            n.collect(depth.saturating_add(1), maxdepth, pc);
         }
     }
 }
-- 
2.43.0


From 4f3b876e903f10ad92f5908642e2d2bc87c686f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 05/56] fix: line/box intersection reported NaN hits for lines
 parallel to a box plane

---
 src/functions.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..ef161ed 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -441,27 +441,29 @@ pub fn max64(a: f64, b: f64) -> f64 {
 //@todo better location and as trait?
 /// The intersection between a line and BoundingBox if there is any
 pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
-    let inv_dir = [1.0 / l.dir.x(), 1.0 / l.dir.y(), 1.0 / l.dir.z()];
-    let min = b.min_p();
-    let max = b.max_p();
-
-    let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
-    let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
-
-    let mut tmin = min64(tx1, tx2);
-    let mut tmax = max64(tx1, tx2);
-
-    let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
-    let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
-
-    tmin = max64(tmin, min64(ty1, ty2));
-    tmax = min64(tmax, max64(ty1, ty2));
+    let anchor = l.anchor.xyz();
+    let dir = l.dir.xyz();
+    let min = b.min_p().xyz();
+    let max = b.max_p().xyz();
+
+    let mut tmin = -std::f64::INFINITY;
+    let mut tmax = std::f64::INFINITY;
+
+    for i in 0..3 {
+        if dir[i] == 0.0 {
+            // parallel to this slab, dividing would result in NaN if on one of its planes
+            if anchor[i] < min[i] || anchor[i] > max[i] {
+                return None;
+            }
+            continue;
+        }
 
-    let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
-    let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
+        let t1 = (min[i] - anchor[i]) / dir[i];
+        let t2 = (max[i] - anchor[i]) / dir[i];
 
-    tmin = max64(tmin, min64(tz1, tz2));
-    tmax = min64(tmax, max64(tz1, tz2));
+        tmin = max64(tmin, min64(t1, t2));
+        tmax = min64(tmax, max64(t1, t2));
+    }
 
     if tmax >= tmin && tmax >= 0.0 {
         Some(&l.anchor + &l.dir * tmin)
-- 
2.43.0


From 8c59cd9ccfbe8d78b883b6f1a72e82417b698770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 06/56] fix: z of Sphere and FilterSphere returned the y
 coordinate

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From ea3c3d0981a99c05956b788dc92cbd31de4daf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 07/56] fix: PointCloud3Df32 had no bounding box for two points

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..fab9bcc 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -130,7 +130,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 1039c51e33e35f5e0405e682f073eaec1e61dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 08/56] fix: BoxUnaligned3D collided at twice its size and its
 bounding box was not the extent of the box

---
 src/box_unaligned_3d.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..46afff5 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
@@ -129,24 +129,21 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
+        let (dx, dy, dz) = (self.d_x(), self.d_y(), self.d_z());
+        let hx = dx.x().abs() + dy.x().abs() + dz.x().abs();
+        let hy = dx.y().abs() + dy.y().abs() + dz.y().abs();
+        let hz = dx.z().abs() + dy.z().abs() + dz.z().abs();
 
         BoundingBox3D::new(
             &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
+                self.center.x() - hx,
+                self.center.y() - hy,
+                self.center.z() - hz,
             ),
             &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
+                self.center.x() + hx,
+                self.center.y() + hy,
+                self.center.z() + hz,
             ),
         )
         .unwrap() //@todo unwrap, see above
-- 
2.43.0


From e696ba09472fcc337296e26e417e4fd810c522af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 09/56] fix: half edge twins referred to the edge after the
 twin

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From e5a17dc1b3890e48e232f3effcb1ae4006187b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 10/56] fix: half edge refused trailing vertices that are not
 part of any face

---
 src/half_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..05a519a 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -91,6 +91,11 @@ where
             }
         }
 
+        // vertices which aren't part of any face are valid as well
+        if vertices_start_edges.len() < n_vertices {
+            vertices_start_edges.resize(n_vertices, IC::default());
+        }
+
         let mut result = HalfEdge {
             tails,
             twins,
-- 
2.43.0


From 0dd11440aefaddcd3ffd27f17abd072425530e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 11/56] fix: heal_mesh kept duplicate faces

---
 src/heal_mesh.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/heal_mesh.rs b/src/heal_mesh.rs
index 96aadf2..06b3dc1 100644
--- a/src/heal_mesh.rs
+++ b/src/heal_mesh.rs
@@ -24,6 +24,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
+use fnv::FnvHashSet;
 use std::hash::Hash;
 
 //------------------------------------------------------------------------------
@@ -56,11 +57,24 @@ where
         result.add_vertex(x);
     }
 
+    let mut added = FnvHashSet::default();
+
     for f in 0..nf_new {
         let (a, b, c) = (indices[3 * f + 0], indices[3 * f + 1], indices[3 * f + 2]);
         if a == b || a == c || b == c {
             continue;
         }
+        // duplicates might start with a different corner, thus rotate the smallest to the front
+        let rotated = if a < b && a < c {
+            (a, b, c)
+        } else if b < c {
+            (b, c, a)
+        } else {
+            (c, a, b)
+        };
+        if !added.insert(rotated) {
+            continue;
+        }
         result.try_add_connection(VId(a), VId(b), VId(c))?;
     }
 
-- 
2.43.0


From a3ce9ea410ba041d3ff6423be1270febbc63760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 12/56] fix: unify_faces compared normals of faces sharing a
 vertex instead of orientations along shared edges

---
 src/unify_faces.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/unify_faces.rs b/src/unify_faces.rs
index 0c84f63..9a921a0 100644
--- a/src/unify_faces.rs
+++ b/src/unify_faces.rs
@@ -67,18 +67,18 @@ where
             neighbour_buffer.clear();
             collect_neighbour_faces(mesh, &v_to_f, FId(this), &mut neighbour_buffer)?;
 
-            let [v1, v2, v3] = mesh.face_vertices(FId(this)).unwrap(); // safe since index is safe
-            let n_this = normal_of_face(&v1, &v2, &v3);
+            let f_this = mesh.face_vertex_ids(FId(this)).unwrap(); // safe since index is safe
 
             for neighbour in neighbour_buffer.iter() {
                 if checked[neighbour] {
                     continue;
                 }
 
-                let [v1n, v2n, v3n] = mesh.face_vertices(FId(neighbour)).unwrap(); // safe since index is safe
-                let n_neighbour = normal_of_face(&v1n, &v2n, &v3n);
-
-                let are_different = n_this.dot(&n_neighbour) < 0.0;
+                let f_neighbour = mesh.face_vertex_ids(FId(neighbour)).unwrap(); // safe since index is safe
+                let are_different = match orientations_differ(&f_this, &f_neighbour) {
+                    Some(x) => x,
+                    None => continue,
+                };
                 let flip_this = must_flip[this];
                 must_flip.set(
                     neighbour,
@@ -159,3 +159,21 @@ where
     neighbours.retain(|x| *x != fid.0);
     Ok(())
 }
+
+//------------------------------------------------------------------------------
+
+/// Whether two faces are oriented differently, None if they don't share an edge
+/// Faces are oriented the same way, if they traverse their shared edge in opposite directions
+fn orientations_differ(f1: &Face3, f2: &Face3) -> Option<bool> {
+    for (t1, h1) in [(f1.a, f1.b), (f1.b, f1.c), (f1.c, f1.a)].iter() {
+        for (t2, h2) in [(f2.a, f2.b), (f2.b, f2.c), (f2.c, f2.a)].iter() {
+            if t1 == t2 && h1 == h2 {
+                return Some(true);
+            }
+            if t1 == h2 && h1 == t2 {
+                return Some(false);
+            }
+        }
+    }
+    None
+}
-- 
2.43.0


From 26d12c69b252302f958ce4a78267f4068c7c0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 13/56] fix: FilterDirectionField2D compared the angle between
 positions instead of the angle between directions

---
 src/filter_direction_field_2d.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..f6d9301 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,10 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        let angle = expected
+            .cross(&pn.1)
+            .atan2(expected.dot(&pn.1))
+            .abs();
+        Rad(angle) <= self.eps
     }
 }
-- 
2.43.0


From 4d4ce5d66dd682256ea461156cab0a1770d01702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 14/56] fix: angle between parallel 3D vectors was NaN

---
 src/is_3d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..60dd6dc 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,9 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        // rounding might exceed the domain of acos
+        let cos = (self.dot(other) / *(self.abs() * other.abs())).clamp(-1.0, 1.0);
+        Ok(Rad(cos.acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From 0ad9e421a1a1578b5a122096b89fb007c2da798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 15/56] fix: FilterAnyRandomAccessible never removed anything
 from the view

---
 src/filter_any_random_accessible.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..cac2ab5 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -22,6 +22,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //! FilterAnyRandomAccessible, a filter to chain multiple IsFilterRandomAccessible with the or condition => must pass any filter to pass this filter
 
+use std::collections::HashSet;
+
 use crate::*;
 
 //------------------------------------------------------------------------------
@@ -41,6 +43,7 @@ where
 {
     fn filter(&self, ra: &RA, view: &mut View) {
         let view_initial = view.clone();
+        *view = View::Restricted(HashSet::new());
         for f in &self.filters {
             let mut view_now = view_initial.clone();
             f.filter(&ra, &mut view_now);
-- 
2.43.0


From 63e7c741de35f6b7f4eaadbe5b09e774dba75926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 16/56] fix: break ties when sorting points by a coordinate

---
 src/functions.rs | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index ef161ed..8b9fa3b 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -105,17 +105,18 @@ where
     }
 }
 
+/// Compares two f64, values which can't be compared are considered equal
+#[inline(always)]
+fn compare(lhs: f64, rhs: f64) -> Ordering {
+    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+}
+
 /// Helper function to sort a Vec of Is2D by x
 pub fn sort_vec_2d_x<P>(xs: &mut Vec<P>)
 where
     P: Is2D,
 {
-    xs.sort_by(|a, b| {
-        a.x()
-            .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .unwrap_or(Ordering::Equal)
-    });
+    xs.sort_by(|a, b| compare(a.x(), b.x()).then_with(|| compare(a.y(), b.y())));
 }
 
 /// Helper function to sort a Vec of Is2D by y
@@ -123,12 +124,7 @@ pub fn sort_vec_2d_y<P>(xs: &mut Vec<P>)
 where
     P: Is2D,
 {
-    xs.sort_by(|a, b| {
-        a.y()
-            .partial_cmp(&b.y())
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .unwrap_or(Ordering::Equal)
-    });
+    xs.sort_by(|a, b| compare(a.y(), b.y()).then_with(|| compare(a.x(), b.x())));
 }
 
 /// Helper function to sort a Vec of Is3D by x
@@ -137,11 +133,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.x()
-            .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .or_else(|| a.z().partial_cmp(&b.z()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.x(), b.x())
+            .then_with(|| compare(a.y(), b.y()))
+            .then_with(|| compare(a.z(), b.z()))
     });
 }
 
@@ -151,11 +145,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.y()
-            .partial_cmp(&b.y())
-            .or_else(|| a.z().partial_cmp(&b.z()))
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.y(), b.y())
+            .then_with(|| compare(a.z(), b.z()))
+            .then_with(|| compare(a.x(), b.x()))
     });
 }
 
@@ -165,11 +157,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.z()
-            .partial_cmp(&b.z())
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.z(), b.z())
+            .then_with(|| compare(a.x(), b.x()))
+            .then_with(|| compare(a.y(), b.y()))
     });
 }
 
-- 
2.43.0


From ae857f4d60eea5cba6eb524c28c64e53c040edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 17/56] fix: convex hull of a single or repeated point

---
 src/convex_hull_2d.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..37c6078 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -34,12 +34,19 @@ where
     RA: IsRandomAccessible<P>,
     P: IsBuildable2D + Clone,
 {
-    let n = ra.len();
-
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
     sorted.sort_x();
+    // repeated points are neighbors after sorting
+    sorted
+        .data
+        .dedup_by(|a, b| a.x() == b.x() && a.y() == b.y());
     let sorted = sorted;
+    let n = sorted.len();
+
+    if n < 2 {
+        return sorted.data;
+    }
 
     let mut lower = Vec::<P>::new();
     for i in 0..n {
@@ -61,12 +68,8 @@ where
         upper.push(sorted[i].clone());
     }
 
-    if lower.len() > 0 {
-        lower.pop().unwrap();
-    } //safe, since len > 0
-    if upper.len() > 0 {
-        upper.pop().unwrap();
-    } //safe, since len > 0
+    lower.pop().unwrap(); //safe, since len > 0
+    upper.pop().unwrap(); //safe, since len > 0
 
     let mut result = Vec::<P>::new();
     result.extend(lower);
-- 
2.43.0


From 7937945d6002b757c4c49bd258732130d177cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 18/56] fix: douglas_peucker_2d kept wrong points and dropped
 points out of tolerance

---
 src/douglas_peucker_2d.rs | 42 ++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..8bdd820 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 3 {
         return pc;
     }
 
@@ -40,18 +40,18 @@ where
     let end = pc.len() - 1;
 
     for i in 1..end {
-        let d = distance_point_line(&pc.data[i], &pc.data[0], &pc.data[end]);
+        let d = distance_point_segment(&pc.data[i], &pc.data[0], &pc.data[end]);
         if d > dmax {
             index = i;
             dmax = d;
         }
     }
 
-    if dmax > epsilon {
+    if dmax > epsilon && index > 0 {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
@@ -73,31 +73,23 @@ where
 
 //------------------------------------------------------------------------------
 
-fn distance_point_line<P, Q, R>(p: &P, l1: &Q, l2: &R) -> f64
+fn distance_point_segment<P, Q, R>(p: &P, l1: &Q, l2: &R) -> f64
 where
     P: Is2D,
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
-
-    let b1 = l2.x();
-    let b2 = l2.y();
-
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
+    let dx = l2.x() - l1.x();
+    let dy = l2.y() - l1.y();
+    let sqr_length = dx * dx + dy * dy;
+
+    let t = if sqr_length > 0.0 {
+        (((p.x() - l1.x()) * dx + (p.y() - l1.y()) * dy) / sqr_length)
+            .max(0.0)
+            .min(1.0)
+    } else {
+        0.0
+    };
 
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    ((l1.x() + t * dx - p.x()).powi(2) + (l1.y() + t * dy - p.y()).powi(2)).sqrt()
 }
-- 
2.43.0


From 113dbeb6a03254e580d609da0d084f92b288c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 19/56] fix: bezier interpolation overflowed with more than 20
 base points

---
 src/interpolate_2d.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..f180595 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,17 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    let mut result = 1.0;
 
-    for i in 1..number + 1 {
-        result *= i;
+    for i in 1..k + 1 {
+        result = result * (n - k + i) as f64 / i as f64;
     }
     result
 }
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
-}
-
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 071d63c81473fd8427ed2926c8c994d294f7eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 20/56] fix: linear and cosine interpolation lost points and
 returned NaN

---
 src/interpolate_2d.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index f180595..5846698 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -94,7 +94,12 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = if n_points > 1 {
+        base_points.length() / (n_points - 1) as f64
+    } else {
+        0.0
+    };
+    let j_last = base_points.len() - 1;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -107,9 +112,13 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            // rounding might exceed the length of the path
+            if traveled >= p_dist * (i as f64) || j == j_last {
+                let proportion = if traveled > traveled_before {
+                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before)
+                } else {
+                    0.0
+                };
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
@@ -136,23 +145,31 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = if n_points > 1 {
+        base_points.length() / (n_points - 1) as f64
+    } else {
+        0.0
+    };
+    let j_last = base_points.len() - 1;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
 
         for j in 1..base_points.len() {
-            //@todo fails if path too small, handle this
             let ref p_prev = base_points.data[j - 1];
             let ref p_now = base_points.data[j];
 
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            // rounding might exceed the length of the path
+            if traveled >= p_dist * (i as f64) || j == j_last {
+                let proportion = if traveled > traveled_before {
+                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before)
+                } else {
+                    0.0
+                };
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-- 
2.43.0


From e96d9e33cf6ea37e7a2af2f395687da83cf5a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 21/56] fix: factories failed for less than two points

---
 src/factory_2d.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..88efe00 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,7 +56,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let current = (i as f64) * p_dist;
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = step(PI, n_points);
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
@@ -113,3 +113,14 @@ where
     }
     pc
 }
+
+//------------------------------------------------------------------------------
+
+/// Distance between n_points which are evenly distributed over the given range
+fn step(range: f64, n_points: usize) -> f64 {
+    if n_points > 1 {
+        range / (n_points - 1) as f64
+    } else {
+        0.0
+    }
+}
-- 
2.43.0


From ef460792ba669036ba49a3a671c617a9cdc7677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 22/56] fix: arc and involut_circle did not run from start to
 end

---
 src/factory_2d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 88efe00..7c24858 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,10 +56,10 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = step((end.0 - start.0).abs(), n_points);
+    let p_dist = step(end.0 - start.0, n_points);
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = step((end.0 - start.0).abs(), n_points);
+    let p_dist = step(end.0 - start.0, n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
-- 
2.43.0


From 1bb69e1df60c3266ef271080b2e8c3bb053c7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 23/56] fix: ellipse was only half an ellipse

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 7c24858..b8ea009 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = step(PI, n_points);
+    let p_dist = step(2.0 * PI, n_points);
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From f7d745e0081337e88594f8b5d6b2b4202994aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 24/56] fix: Norm2D and Norm3D of very small or large vectors
 had no unit length

---
 src/norm_2d.rs | 14 ++++++--------
 src/norm_3d.rs | 15 ++++++++-------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/norm_2d.rs b/src/norm_2d.rs
index fbdbc45..ffc49f3 100644
--- a/src/norm_2d.rs
+++ b/src/norm_2d.rs
@@ -133,16 +133,14 @@ impl IsNormalized2D for Norm2D {
     where
         P: Is2D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
+        // the square of very small or large components would leave the range of f64
+        let m = p.x().abs().max(p.y().abs());
+        let (x, y) = (p.x() / m, p.y() / m);
+        let l = (x * x + y * y).sqrt();
+        if !l.is_finite() {
             return Err(ErrorKind::NormalizeVecWithoutLength);
         }
 
-        let f = 1.0 / l;
-
-        Ok(Norm2D {
-            x: f * p.x(),
-            y: f * p.y(),
-        })
+        Ok(Norm2D { x: x / l, y: y / l })
     }
 }
diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index 0aa5971..abbed07 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -145,17 +145,18 @@ impl IsNormalized3D for Norm3D {
     where
         P: Is3D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
+        // the square of very small or large components would leave the range of f64
+        let m = p.x().abs().max(p.y().abs()).max(p.z().abs());
+        let (x, y, z) = (p.x() / m, p.y() / m, p.z() / m);
+        let l = (x * x + y * y + z * z).sqrt();
+        if !l.is_finite() {
             return Err(ErrorKind::NormalizeVecWithoutLength);
         }
 
-        let f = 1.0 / l;
-
         Ok(Norm3D {
-            x: f * p.x(),
-            y: f * p.y(),
-            z: f * p.z(),
+            x: x / l,
+            y: y / l,
+            z: z / l,
         })
     }
 }
-- 
2.43.0


From 53ae4c9fe2d125ae2766287ce6a875de5eb50727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 25/56] fix: NonNegative could hold a negative zero

---
 src/non_negative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/non_negative.rs b/src/non_negative.rs
index 0935239..24de03c 100644
--- a/src/non_negative.rs
+++ b/src/non_negative.rs
@@ -42,7 +42,8 @@ impl NonNegative {
     /// Creates a new NonNegative if input >= 0, fails otherwise
     pub fn new(val: f64) -> Option<NonNegative> {
         if val >= 0.0 {
-            return Some(NonNegative { val });
+            // -0.0 passes the comparison, but dividing by it would yield negative values
+            return Some(NonNegative { val: val.abs() });
         }
         None
     }
-- 
2.43.0


From 2707031913bc39f3cc068440024c9354bceb672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 26/56] fix: allow inserting at the end of Vec and VecDeque, as
 with point clouds

---
 src/impls/vec.rs       | 2 +-
 src/impls/vec_deque.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 5725dc3..41c05e6 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -34,7 +34,7 @@ impl<T> IsRandomAccessible<T> for Vec<T> {
 
 impl<T> IsRandomInsertible<T> for Vec<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
diff --git a/src/impls/vec_deque.rs b/src/impls/vec_deque.rs
index 0fbb0c3..2cb9216 100644
--- a/src/impls/vec_deque.rs
+++ b/src/impls/vec_deque.rs
@@ -36,7 +36,7 @@ impl<T> IsRandomAccessible<T> for VecDeque<T> {
 
 impl<T> IsRandomInsertible<T> for VecDeque<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
-- 
2.43.0


From 3ab43ca0cb8b0076ac7eb88fbded294b25883a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 27/56] fix: compress point clouds into 64 and 128 bit units

---
 src/compressed_point_cloud_3d.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..454704f 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = Self::units(distx / unitsizex, maxval)?;
+            let unitsy = Self::units(disty / unitsizey, maxval)?;
+            let unitsz = Self::units(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -91,6 +91,15 @@ where
         })
     }
 
+    /// Converts to the stored type, limited to its largest value since this might round up to a not representable f64
+    fn units(x: f64, maxval: f64) -> Result<T> {
+        if x >= maxval {
+            Ok(T::max_value())
+        } else {
+            T::from(x).ok_or(ErrorKind::NumberConversionError)
+        }
+    }
+
     /// Creates a new point cloud from this
     pub fn decompress<P>(&self) -> PointCloud3D<P>
     where
-- 
2.43.0


From 9ac31df9601779821e16a92ab6c8e68344f0ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 28/56] fix: write binary .ply completely, also to writers
 accepting only parts

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From 3786822ce85ea5045edae67354fb3d6e26a49352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 29/56] fix: keep the last character of files not ending with a
 newline

---
 src/io/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..362008f 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,11 +99,11 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
+    // We must drop the '\n' (missing if the file does not end with one)
     // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
-        if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
+    let mut ignore_end = 0;
+    for c in line_buffer.iter().rev() {
+        if (*c as char).is_whitespace() {
             ignore_end += 1;
         } else {
             break;
-- 
2.43.0


From 0f25016e0477e86318bf0e93d539fd54ddbebe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 30/56] fix: report read errors (and too short ASCII .ply)
 instead of a complete load

---
 src/io/gcode.rs                  | 10 ++++-
 src/io/obj.rs                    | 20 ++++++++-
 src/io/off.rs                    | 20 ++++++++-
 src/io/ply/header.rs             |  7 ++-
 src/io/ply/iterators_internal.rs | 76 +++++++++++++++++++-------------
 src/io/pts.rs                    | 10 ++++-
 src/io/ptx.rs                    | 22 ++++++---
 src/io/stl.rs                    |  7 ++-
 src/io/utils.rs                  | 14 ++++--
 src/io/xy.rs                     | 33 ++++++++------
 src/io/xyz.rs                    | 33 ++++++++------
 11 files changed, 177 insertions(+), 75 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..274cbdc 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 4 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..acf2fd6 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..b168c9b 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +243,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..54bad4f 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -64,7 +64,12 @@ where
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
 
-    while let Ok(line) = fetch_line(read, line_buffer) {
+    loop {
+        let line = match fetch_line(read, line_buffer) {
+            Ok(line) => line,
+            Err(FetchLineError::EndOfFile) => break,
+            Err(FetchLineError::AccessFile) => return Err(PlyError::AccessFile).index(*i_line),
+        };
         *i_line += 1;
 
         if line.starts_with(b"comment") {
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..597cfcd 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -378,27 +378,33 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    Self::fetch_one(&self.header, line)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
-            }
+            return match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.current += 1;
+                    self.i_line += 1;
+                    Some(
+                        Self::fetch_one(&self.header, line)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    )
+                }
+                Err(FetchLineError::EndOfFile) => {
+                    self.is_done = true;
+                    Some(Err(PlyError::LoadVertexCountIncorrect).index(self.i_line))
+                }
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    Some(Err(PlyError::AccessFile).index(self.i_line))
+                }
+            };
         }
 
         self.is_done = true;
 
-        if self.current != self.header.vertex.count {
-            Some(Err(PlyError::LoadVertexCountIncorrect).simple())
-        } else {
-            None
-        }
+        None
     }
 }
 
@@ -450,19 +456,29 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    collect_index_line(&line)
-                        .ok_or(PlyError::FaceStructure)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
-            }
+            return match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.current += 1;
+                    self.i_line += 1;
+                    Some(
+                        collect_index_line(&line)
+                            .ok_or(PlyError::FaceStructure)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    )
+                }
+                Err(FetchLineError::EndOfFile) => {
+                    self.is_done = true;
+                    Some(Err(PlyError::FaceStructure).index(self.i_line))
+                }
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    Some(Err(PlyError::AccessFile).index(self.i_line))
+                }
+            };
         }
 
         self.is_done = true;
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..eef0ab9 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndOfFile) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..8892907 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -174,12 +174,19 @@ where
         }
         if self.n_points_to_fetch == 0 {
             let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
+            match first_line {
+                Ok(_) => (),
+                Err(FetchLineError::EndOfFile) => {
+                    self.is_done = true;
+                    return None;
+                }
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtxError::AccessFile).index(self.i_line));
+                }
             }
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
+            // unwrap safe, errors handled above
             match from_ascii(first_line.as_ref().unwrap())
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
@@ -298,8 +305,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndOfFile => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..549d130 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -732,7 +732,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndOfFile => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 362008f..51c5639 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -96,7 +96,7 @@ where
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Err(FetchLineError::EndOfFile);
     }
 
     // We must drop the '\n' (missing if the file does not end with one)
@@ -116,19 +116,25 @@ where
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndOfFile,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
 
 impl fmt::Debug for FetchLineError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Unable to fetch line")
+        match self {
+            Self::EndOfFile => write!(f, "Unable to fetch line, reached end of file"),
+            Self::AccessFile => write!(f, "Unable to fetch line, can't access file"),
+        }
     }
 }
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..0045851 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndOfFile) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..ada5585 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndOfFile) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyzError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
-- 
2.43.0


From 93cd8967e2ba91b59d909310b19ca11a670182fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 31/56] fix: read all points, lines and passes of .psl files

---
 src/io/psl.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..1b05e9d 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -70,33 +70,21 @@ where
         self.n_passes_left = fetch_header_return_n_passes(&mut self.read)?;
         Ok(())
     }
+    /// Moves on to the next line (and pass) until there's a point to read or none are left
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +113,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From 9d43d1c9d5aac662fbf1a228e71ad7b802b6e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 32/56] fix: stop reading .ptx after an error and don't
 overflow on huge point counts

---
 src/io/ptx.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 8892907..c822beb 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
@@ -206,7 +209,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 8dbf322eefbbdab413aa4079bcbd654ca3c7fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 33/56] fix: .ptx stores the translation within the last matrix
 row

---
 src/io/ptx.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index c822beb..f2f39ad 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -144,12 +144,14 @@ where
             .ok_or(PtxError::Matrix)
             .line(self.i_line, line)?;
 
+        // .ptx multiplies row vectors with the matrix (translation within the last row),
+        // while Matrix4 is multiplied with column vectors
         self.transformation = Matrix4 {
             data: [
-                [m11, m12, m13, m14],
-                [m21, m22, m23, m24],
-                [m31, m32, m33, m34],
-                [m41, m42, m43, m44],
+                [m11, m21, m31, m41],
+                [m12, m22, m32, m42],
+                [m13, m23, m33, m43],
+                [m14, m24, m34, m44],
             ],
         };
 
-- 
2.43.0


From d6db0a3e484a2020a4e527ac755a535307832276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 34/56] fix: report .pts and .off files holding fewer elements
 than announced

---
 src/io/off.rs | 54 ++++++++++++++++++++++++++++++++-------------------
 src/io/pts.rs |  7 ++++++-
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index b168c9b..1f6a6dd 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,7 @@ where
             return None;
         }
 
-        loop {
+        while self.n_vertices.map_or(true, |n| self.n_added < n) {
             let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
                 Err(FetchLineError::EndOfFile) => break,
@@ -121,27 +121,26 @@ where
                 }
             }
 
-            // safe since checked above
-            if self.n_added < self.n_vertices.unwrap() {
-                self.n_added += 1;
-                return Some(
-                    fetch_vertex(line)
-                        .map(|x| DataReserve::Data(x))
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
-            } else {
-                self.is_done = true;
-                return None;
-            }
+            self.n_added += 1;
+            return Some(
+                fetch_vertex(line)
+                    .map(|x| DataReserve::Data(x))
+                    .line(self.i_line, line)
+                    .map_err(|e| {
+                        self.is_done = true;
+                        e
+                    }),
+            );
         }
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_added == n => None,
+            // fewer vertices than announced or not even an announcement
+            Some(_) => Some(Err(OffError::Vertex).index(self.i_line)),
+            None => Some(Err(OffError::VertexCount).index(self.i_line)),
+        }
     }
 }
 
@@ -167,6 +166,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -184,6 +184,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -243,7 +244,9 @@ where
         if self.is_done {
             return None;
         }
-        loop {
+        while self.counts.map_or(true, |[n_vertices, n_faces]| {
+            self.n_vertices_added < n_vertices || self.n_faces_added < n_faces
+        }) {
             let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
                 Err(FetchLineError::EndOfFile) => break,
@@ -285,6 +288,8 @@ where
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
                 } else {
+                    self.n_faces_added += 1;
+
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -302,7 +307,16 @@ where
 
         self.is_done = true;
 
-        None
+        match self.counts {
+            Some([n_vertices, _]) if self.n_vertices_added < n_vertices => {
+                Some(Err(OffError::Vertex).index(self.i_line))
+            }
+            Some([_, n_faces]) if self.n_faces_added < n_faces => {
+                Some(Err(OffError::Face).index(self.i_line))
+            }
+            Some(_) => None,
+            None => Some(Err(OffError::VertexCount).index(self.i_line)),
+        }
     }
 }
 
diff --git a/src/io/pts.rs b/src/io/pts.rs
index eef0ab9..1a104f4 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -171,7 +171,12 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added == n => None,
+            // fewer vertices than announced or not even an announcement
+            Some(_) => Some(Err(PtsError::Vertex).index(self.i_line)),
+            None => Some(Err(PtsError::VertexCount).index(self.i_line)),
+        }
     }
 }
 
-- 
2.43.0


From 5f598e7a8eea69ae347cb6f0eccd35aaf7625c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 35/56] fix: huge element counts in files overflowed or
 exhausted memory when reserving

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    | 11 +++++++++++
 7 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 1f6a6dd..bd039d5 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -346,8 +346,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -369,7 +369,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1a104f4..171f8ab 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -198,7 +198,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index f2f39ad..72079c5 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -250,7 +250,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 549d130..90f3074 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,8 +350,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(limit_reserve(3 * n));
+                mesh.reserve_faces(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -385,8 +385,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -443,8 +443,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(limit_reserve(3 * n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 51c5639..694d63d 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -57,6 +57,17 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Number of elements reserved at most due to the counts within a file (these might be invalid)
+const MAX_RESERVE: usize = 1_000_000;
+
+/// Limits an element count read from a file for usage within reserve methods
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    n.min(MAX_RESERVE)
+}
+
+//------------------------------------------------------------------------------
+
 /// Trims white space at the start of the input
 pub fn trim_start(text: &[u8]) -> &[u8] {
     let mut to_drop = 0;
-- 
2.43.0


From 8d3e0a71ab72751c899dbbbf799971557df7b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 36/56] fix: vertex index 0 in .obj files underflowed

---
 src/io/obj.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index acf2fd6..8616a0d 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -322,7 +322,9 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    match (a.checked_sub(1), b.checked_sub(1), c.checked_sub(1)) {
+        (Some(a), Some(b), Some(c)) => Ok([a, b, c]),
+        _ => Err(ObjError::Face),
+    }
 }
-- 
2.43.0


From 69730d805dbde6e71171f97fb5ea8e6dcd0010ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 37/56] fix: .obj vertices and faces using tabs or indentation
 were skipped

---
 src/io/obj.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 8616a0d..fa7db5c 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -86,7 +86,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_definition(line, b"v") {
                 return Some(fetch_vertex(line).line(self.i_line, line).map_err(|e| {
                     self.is_done = true;
                     e
@@ -160,7 +160,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_definition(line, b"v") {
                 return Some(
                     fetch_vertex(line)
                         .map(|x| FaceData::Data(x))
@@ -170,7 +170,7 @@ where
                             e
                         }),
                 );
-            } else if line.starts_with(b"f ") {
+            } else if is_definition(line, b"f") {
                 return Some(
                     fetch_face(line)
                         .map(|x| FaceData::Face(x))
@@ -278,6 +278,11 @@ impl From<ioError> for ObjError {
 
 //------------------------------------------------------------------------------
 
+#[inline(always)]
+fn is_definition(line: &[u8], keyword: &[u8]) -> bool {
+    to_words_skip_empty(line).next() == Some(keyword)
+}
+
 #[inline(always)]
 fn fetch_vertex<P>(line: &[u8]) -> ObjResult<P>
 where
-- 
2.43.0


From d4ad77c979517951cfabfdbfd19917da287ef40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 38/56] fix: .obj polygons with more than 3 vertices lost all
 but one triangle

---
 src/io/obj.rs | 50 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index fa7db5c..cf8cc73 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -25,6 +25,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 use crate::*;
 
 use std::{
+    collections::VecDeque,
     fmt,
     io::{BufRead, Error as ioError},
     iter::FusedIterator,
@@ -119,6 +120,7 @@ where
     is_done: bool,
     i_line: usize,
     line_buffer: Vec<u8>,
+    faces: VecDeque<[usize; 3]>,
     phantom_p: PhantomData<P>,
 }
 
@@ -133,6 +135,7 @@ where
             is_done: false,
             i_line: 0,
             line_buffer: Vec::new(),
+            faces: VecDeque::new(),
             phantom_p: PhantomData,
         }
     }
@@ -149,6 +152,10 @@ where
         if self.is_done {
             return None;
         }
+        // remaining triangles of a polygon
+        if let Some(face) = self.faces.pop_front() {
+            return Some(Ok(FaceData::Face(face)));
+        }
         loop {
             let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
@@ -172,7 +179,7 @@ where
                 );
             } else if is_definition(line, b"f") {
                 return Some(
-                    fetch_face(line)
+                    fetch_faces(line, &mut self.faces)
                         .map(|x| FaceData::Face(x))
                         .line(self.i_line, line)
                         .map_err(|e| {
@@ -311,25 +318,30 @@ where
     Ok(P::new(x, y, z))
 }
 
+/// Fetches the first triangle of a face definition, adding the others of polygons with more than 3 vertices to rest
 #[inline(always)]
-fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
-    let mut words = to_words_skip_empty(line);
-
-    // skip "f"
-    words.next().ok_or(ObjError::Face)?;
-
-    let mut tmp = words.next().ok_or(ObjError::Face)?;
-    let a: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
-
-    tmp = words.next().ok_or(ObjError::Face)?;
-    let b: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
+fn fetch_faces(line: &[u8], rest: &mut VecDeque<[usize; 3]>) -> ObjResult<[usize; 3]> {
+    // skip "f", ignore comments
+    let mut words = to_words_skip_empty(until_bytes(line, b'#')).skip(1);
+
+    let a = fetch_index(words.next())?;
+    let b = fetch_index(words.next())?;
+    let c = fetch_index(words.next())?;
+
+    let mut last = c;
+    for word in words {
+        let next = fetch_index(Some(word))?;
+        rest.push_back([a, last, next]);
+        last = next;
+    }
 
-    tmp = words.next().ok_or(ObjError::Face)?;
-    let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
+    Ok([a, b, c])
+}
 
-    //obj indexing starts at 1
-    match (a.checked_sub(1), b.checked_sub(1), c.checked_sub(1)) {
-        (Some(a), Some(b), Some(c)) => Ok([a, b, c]),
-        _ => Err(ObjError::Face),
-    }
+#[inline(always)]
+fn fetch_index(word: Option<&[u8]>) -> ObjResult<usize> {
+    word.and_then(|w| from_ascii::<usize>(until_bytes(w, b'/')))
+        //obj indexing starts at 1
+        .and_then(|i| i.checked_sub(1))
+        .ok_or(ObjError::Face)
 }
-- 
2.43.0


From 204a1cb8dbaa3df33b8a8255f1dd4bbd13729112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 39/56] fix: .gcode mode changes without arguments, G0 moves
 and attached comments were not read

---
 src/io/gcode.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index 274cbdc..951656c 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -96,11 +96,15 @@ where
             };
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
-                if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
+            // drop comments and separate command from arguments
+            let line_command = until_bytes(line, b';');
+            let name = to_words_skip_empty(line_command).next().unwrap_or(&[]);
+
+            if name.len() >= 2 && name[0] == b'G' {
+                if name == b"G0" || name == b"G1" || name == b"G2" || name == b"G3" {
                     // Move according to absolute/relative
                     let mut any_changed = false;
-                    match command(&line[3..])
+                    match command(line_command)
                         .ok_or(GcodeError::Command)
                         .line(self.i_line, line)
                     {
@@ -138,19 +142,19 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if name.len() == 3 && name[1] == b'9' {
                     // G9x
-                    if line[2] == b'0' {
+                    if name[2] == b'0' {
                         // G90
                         self.ra = RelativeAbsolute::Absolute;
-                    } else if line[2] == b'1' {
+                    } else if name[2] == b'1' {
                         // G91
                         self.ra = RelativeAbsolute::Relative;
-                    } else if line[2] == b'2' {
+                    } else if name[2] == b'2' {
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(line_command)
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
@@ -221,7 +225,7 @@ fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
     let mut x = None;
     let mut y = None;
     let mut z = None;
-    let words = line.split(|x| *x == b' ');
+    let words = to_words_skip_empty(line).skip(1); // skip command name
 
     for word in words {
         if n_found == 3 {
@@ -230,14 +234,6 @@ fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
 
         let n = word.len();
 
-        if n == 0 {
-            continue;
-        }
-
-        if word[0] == b';' {
-            break;
-        }
-
         if n < 2 {
             continue;
         }
-- 
2.43.0


From 2b87e4a86bf8e2e4f9a65af7e5859697b23577f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 40/56] fix: .ply coordinate types were mixed up unless given
 as x, y, z (more than three crashed)

---
 src/io/ply/header.rs | 47 +++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 54bad4f..5fff53c 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -41,8 +41,7 @@ pub fn load_header<R>(
 where
     R: BufRead,
 {
-    let mut vertex_order = [Xyz::X, Xyz::X, Xyz::X];
-    let mut i_vertex_order = 0;
+    let mut vertex_order = Vec::new();
 
     let mut ply_found = false;
     let mut read_state = HeaderReadState::Meta;
@@ -50,10 +49,7 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
-    let mut n_types_found = 0;
+    let mut vertex_types = Vec::new(); // in order of definition
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
     let mut vertex_between_snd_third = BytesWords::default();
@@ -150,27 +146,21 @@ where
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
                     if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::X;
-                        i_vertex_order += 1;
+                        vertex_types.push(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_order.push(Xyz::X);
                     } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Y;
-                        i_vertex_order += 1;
+                        vertex_types.push(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_order.push(Xyz::Y);
                     } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Z;
-                        i_vertex_order += 1;
-                    } else if n_types_found == 0 {
+                        vertex_types.push(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_order.push(Xyz::Z);
+                    } else if vertex_types.len() == 0 {
                         vertex_before.bytes += t.size_bytes();
                         vertex_before.words += 1;
-                    } else if n_types_found == 1 {
+                    } else if vertex_types.len() == 1 {
                         vertex_between_first_snd.bytes += t.size_bytes();
                         vertex_between_first_snd.words += 1;
-                    } else if n_types_found == 2 {
+                    } else if vertex_types.len() == 2 {
                         vertex_between_snd_third.bytes += t.size_bytes();
                         vertex_between_snd_third.words += 1;
                     } else {
@@ -226,20 +216,19 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
+            if let (Some(format), Some(n_vertices), [first, snd, third], [o1, o2, o3]) = (
                 opt_format,
                 opt_n_vertices,
-                opt_fst_type,
-                opt_snd_type,
-                opt_third_type,
+                vertex_types.as_slice(),
+                vertex_order.as_slice(),
             ) {
                 let vertex_data = VertexData {
                     count: n_vertices,
                     format: VertexFormat {
-                        order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        order: VertexOrder::try_from([*o1, *o2, *o3]).line(*i_line, line)?,
+                        first: *first,
+                        snd: *snd,
+                        third: *third,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 7107220ad410bb75cae2be0b63054aa74eda2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 41/56] fix: .ply mesh iteration continued with faces after an
 error within the vertices

---
 src/io/ply/iterators_internal.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 597cfcd..ab36be4 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -42,6 +42,7 @@ where
     R: BufRead,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyAsciiPointsIterator<P, R>>,
     f_iter: Option<PlyAsciiFacesIterator<R>>,
 }
@@ -55,6 +56,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyAsciiPointsIterator::new(read, partial_header, i_line)),
             f_iter: None,
         }
@@ -69,9 +71,15 @@ where
     type Item = PlyIOResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -110,6 +118,7 @@ where
     BR: IsByteReader,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyBinaryPointsIterator<BR, P, R>>,
     f_iter: Option<PlyBinaryFacesIterator<BR, R>>,
 }
@@ -124,6 +133,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyBinaryPointsIterator::new(read, partial_header)),
             f_iter: None,
         }
@@ -139,9 +149,15 @@ where
     type Item = PlyResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
-- 
2.43.0


From b955f3b4354e83b609dabb1230f60a862a4742d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 42/56] fix: negative .ply face counts and indices were read as
 huge ones

---
 src/io/ply/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..8f57bec 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -29,7 +29,7 @@ use super::{
     types::*,
 };
 
-use std::io::Read;
+use std::{convert::TryFrom, io::Read};
 
 //------------------------------------------------------------------------------
 
@@ -56,11 +56,11 @@ where
     R: Read,
 {
     Ok(match t {
-        FaceType::Char => BR::read_i8(read)? as usize,
+        FaceType::Char => usize::try_from(BR::read_i8(read)?).or(Err(PlyError::FaceStructure))?,
         FaceType::UChar => BR::read_u8(read)? as usize,
-        FaceType::Short => BR::read_i16(read)? as usize,
+        FaceType::Short => usize::try_from(BR::read_i16(read)?).or(Err(PlyError::FaceStructure))?,
         FaceType::UShort => BR::read_u16(read)? as usize,
-        FaceType::Int => BR::read_i32(read)? as usize,
+        FaceType::Int => usize::try_from(BR::read_i32(read)?).or(Err(PlyError::FaceStructure))?,
         FaceType::UInt => BR::read_u32(read)? as usize,
     })
 }
-- 
2.43.0


From 628890a26ae9a63697b9ca3eb473a33e68942c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 43/56] fix: skip properties before the indices of faces in
 ASCII .ply

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index ab36be4..8000747 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -477,7 +477,7 @@ where
                     self.current += 1;
                     self.i_line += 1;
                     Some(
-                        collect_index_line(&line)
+                        collect_index_line(&line, self.header.face.format.before.words)
                             .ok_or(PlyError::FaceStructure)
                             .line(self.i_line, line)
                             .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 8f57bec..05f313e 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,11 @@ use std::{convert::TryFrom, io::Read};
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+
+    skip_n(&mut words, words_before);
+
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 9ef1baa3d267feea36b5d423c5866de997880cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 44/56] fix: .ply faces following other lists or preceding the
 vertices were misread

---
 src/io/ply/header.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 5fff53c..8c23b42 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -57,6 +57,7 @@ where
 
     let mut opt_face_count_type = None;
     let mut opt_face_index_type = None;
+    let mut unknown_face_lists = false;
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
 
@@ -97,6 +98,10 @@ where
         match opt_n_vertices {
             None => {
                 if line.starts_with(b"element vertex") {
+                    if opt_n_faces.is_some() {
+                        // only supporting vertices followed by faces
+                        return Err(PlyError::VertexElement).line(*i_line, line);
+                    }
                     read_state = HeaderReadState::Vertex;
                     let mut words = to_words_skip_empty(line);
                     opt_n_vertices = Some(
@@ -189,6 +194,13 @@ where
 
                             opt_face_count_type = Some(t_count);
                             opt_face_index_type = Some(t_index);
+                        } else {
+                            // size of other lists unknown, can't skip these
+                            // (except for the remainder of an ASCII line)
+                            unknown_face_lists |= match (opt_format, opt_face_count_type) {
+                                (Some(Format::Ascii), Some(_)) => false,
+                                _ => true,
+                            };
                         }
                     } else {
                         let mut words = to_words_skip_empty(line);
@@ -236,9 +248,12 @@ where
                     },
                 };
 
-                if let (Some(n_faces), Some(face_count_type), Some(face_index_type)) =
-                    (opt_n_faces, opt_face_count_type, opt_face_index_type)
-                {
+                if let (Some(n_faces), Some(face_count_type), Some(face_index_type), false) = (
+                    opt_n_faces,
+                    opt_face_count_type,
+                    opt_face_index_type,
+                    unknown_face_lists,
+                ) {
                     return Ok(Header::Full(FullHeader {
                         format,
                         vertex: vertex_data,
-- 
2.43.0


From 477d16aa255937faf4660e2f37cd508538baae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 45/56] fix: .las headers before version 1.4 are smaller

---
 src/io/las/load.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index d4dbfa5..55a0457 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -163,8 +163,11 @@ fn load_header<R>(mut read: R) -> LasResult<HeaderRaw>
 where
     R: Read,
 {
+    // headers before version 1.4 are smaller, treat what's missing as 0
     let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    read.read_exact(&mut buffer[0..227])?;
+    let header_size = u16::from_le_bytes(buffer[94..96].try_into()?) as usize;
+    read.read_exact(&mut buffer[227..header_size.max(227).min(375)])?;
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From af59f581da95d446b24dcbd74edfe2139d4b6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 46/56] fix: .las with too short point records crashed

---
 src/io/las/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..1954f4c 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // every point format starts with the 12 bytes of x, y and z
+        if x.point_record_length < 12 {
+            return Err(LasError::UnknownPointFormat);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From 0845654ab30af05049b9c71eb235946136374ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 47/56] fix: saving .stl with degenerated faces crashed

---
 src/io/stl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 90f3074..5357a00 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,11 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        // degenerated faces don't have a normal
+        let n = mesh
+            .face_normal(FId(i))
+            .map(|n| P::new(n.x(), n.y(), n.z()))
+            .unwrap_or(P::new(0.0, 0.0, 0.0));
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From c6047b09ab9c2234b754a9f7b49e0e7af587b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 48/56] fix: .stl ending within a facet was reported as a
 complete load

---
 src/io/stl.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 5357a00..03e428d 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -312,16 +312,14 @@ where
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-            Ok([a, b, c, n]) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
-            Err(WithLineInfo::None(StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Index(_, StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Line(_, _, StlError::LoadFileEndReached)) => {
+            Ok(Some([a, b, c, n])) => Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
+            Ok(None) => {
                 self.is_done = true;
-                return None;
+                None
             }
             Err(x) => {
                 self.is_done = true;
-                return Some(Err(x));
+                Some(Err(x))
             }
         }
     }
@@ -518,22 +516,27 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Reads the next facet, None if there's none left
 fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
     i_line: &mut usize,
-) -> StlIOResult<[P; 4]>
+) -> StlIOResult<Option<[P; 4]>>
 where
     P: IsBuildable3D,
     R: BufRead,
 {
     let mut line: &[u8];
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
+    line = match fetch_line(read, line_buffer) {
+        Ok(line) => trim_start(line),
+        Err(FetchLineError::EndOfFile) => return Ok(None),
+        Err(e) => return Err(e.into()).index(*i_line),
+    };
     *i_line += 1;
 
     if line.starts_with(b"endsolid") {
-        return Err(StlError::LoadFileEndReached).line(*i_line, line);
+        return Ok(None);
     }
 
     if !line.starts_with(b"facet") {
@@ -584,7 +587,7 @@ where
         return Err(StlError::EndFacet).line(*i_line, line);
     }
 
-    Ok([a, b, c, n])
+    Ok(Some([a, b, c, n]))
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From cc8fad70a292b53e2f03c7b1d3091dd1dd9acd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 49/56] fix: .ply coordinates ordered y, z, x or z, x, y were
 mixed up

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 05f313e..3667770 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -93,8 +93,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From 7c3fc31f72dd4b7016127dcd3eb26fd1ba48153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 50/56] fix: user defined data following old .las headers was
 read as a point count

---
 src/io/las/load.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index 55a0457..680fa30 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -167,7 +167,9 @@ where
     let mut buffer = [0u8; 375];
     read.read_exact(&mut buffer[0..227])?;
     let header_size = u16::from_le_bytes(buffer[94..96].try_into()?) as usize;
-    read.read_exact(&mut buffer[227..header_size.max(227).min(375)])?;
+    // bytes exceeding them are user defined
+    let version_size = if buffer[25] < 4 { 235 } else { 375 };
+    read.read_exact(&mut buffer[227..header_size.max(227).min(version_size)])?;
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From 9f9fa8807ff1cd3ab69335fde8684d60289ee040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 51/56] fix: bezier interpolation of more than a thousand base
 points was NaN

---
 src/interpolate_2d.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 5846698..8a29394 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -38,7 +38,31 @@ fn binominal_coefficient(n: usize, k: usize) -> f64 {
 }
 
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    let coefficient = binominal_coefficient(n, i);
+
+    if coefficient.is_finite() {
+        return coefficient * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32);
+    }
+
+    // coefficient not representable, so apply the powers while it is built up
+    let mut result = 1.0;
+    let (mut n_t, mut n_inv) = (i, n - i);
+
+    for j in 1..i + 1 {
+        result = result * (n - i + j) as f64 / j as f64;
+
+        while result > 1.0 && n_t + n_inv > 0 {
+            if n_t > 0 {
+                result *= t;
+                n_t -= 1;
+            } else {
+                result *= 1.0 - t;
+                n_inv -= 1;
+            }
+        }
+    }
+
+    result * t.powi(n_t as i32) * (1.0 - t).powi(n_inv as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 10f17f64d1dbe357c0bb3a581eb46ce07264c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 52/56] fix: look at transformations scaled by the distance of
 their target

---
 src/matrix4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix4.rs b/src/matrix4.rs
index ee0a7b0..b41d281 100644
--- a/src/matrix4.rs
+++ b/src/matrix4.rs
@@ -195,7 +195,7 @@ impl Matrix4 {
         N: IsNormalized3D,
     {
         let n = target.normalized()?;
-        let u = cross(&*up, target);
+        let u: P = cross(&*up, target).normalized()?;
         let v = cross(&n, &u);
 
         let mut result = Matrix4::default();
-- 
2.43.0


From d2d5be93b51f7bb99ea2ea1576251410ec248bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 53/56] fix: ordering of points, boxes, circles and spheres
 contradicted their equality

---
 src/box_2d.rs   | 13 ++-----------
 src/box_3d.rs   | 16 ++--------------
 src/circle.rs   | 10 ++--------
 src/norm_2d.rs  |  6 ++----
 src/norm_3d.rs  |  6 ++----
 src/point_2d.rs |  6 ++----
 src/point_3d.rs |  6 ++----
 src/sphere.rs   | 10 ++--------
 8 files changed, 16 insertions(+), 57 deletions(-)

diff --git a/src/box_2d.rs b/src/box_2d.rs
index ff77d59..db4069e 100644
--- a/src/box_2d.rs
+++ b/src/box_2d.rs
@@ -63,17 +63,8 @@ impl Eq for Box2D {}
 
 impl Ord for Box2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        match sqr_dist_2d(&origin, &self.center).partial_cmp(&sqr_dist_2d(&origin, &other.center)) {
-            Some(x) => x,
-            None => match self.size_x.partial_cmp(&other.size_x) {
-                Some(x) => x,
-                None => self
-                    .size_y
-                    .partial_cmp(&other.size_y)
-                    .unwrap_or(Ordering::Equal),
-            },
-        }
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/box_3d.rs b/src/box_3d.rs
index 6039f4a..64ea69f 100644
--- a/src/box_3d.rs
+++ b/src/box_3d.rs
@@ -66,20 +66,8 @@ impl Eq for Box3D {}
 
 impl Ord for Box3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        match sqr_dist_3d(&origin, &self.center).partial_cmp(&sqr_dist_3d(&origin, &other.center)) {
-            Some(x) => x,
-            None => match self.size_x.partial_cmp(&other.size_x) {
-                Some(x) => x,
-                None => match self.size_y.partial_cmp(&other.size_y) {
-                    Some(x) => x,
-                    None => self
-                        .size_z
-                        .partial_cmp(&other.size_z)
-                        .unwrap_or(Ordering::Equal),
-                },
-            },
-        }
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/circle.rs b/src/circle.rs
index 9d119d8..093e289 100644
--- a/src/circle.rs
+++ b/src/circle.rs
@@ -39,14 +39,8 @@ impl Eq for Circle {}
 
 impl Ord for Circle {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        match sqr_dist_2d(&origin, &self.center).partial_cmp(&sqr_dist_2d(&origin, &other.center)) {
-            Some(x) => x,
-            None => self
-                .radius
-                .partial_cmp(&other.radius)
-                .unwrap_or(Ordering::Equal),
-        }
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/norm_2d.rs b/src/norm_2d.rs
index ffc49f3..ca0a870 100644
--- a/src/norm_2d.rs
+++ b/src/norm_2d.rs
@@ -43,10 +43,8 @@ impl Eq for Norm2D {}
 
 impl Ord for Norm2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        sqr_dist_2d(&origin, self)
-            .partial_cmp(&sqr_dist_2d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index abbed07..dc847b6 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -44,10 +44,8 @@ impl Eq for Norm3D {}
 
 impl Ord for Norm3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        sqr_dist_3d(&origin, self)
-            .partial_cmp(&sqr_dist_3d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/point_2d.rs b/src/point_2d.rs
index f4fd1a1..efa683e 100644
--- a/src/point_2d.rs
+++ b/src/point_2d.rs
@@ -50,10 +50,8 @@ impl Eq for Point2D {}
 
 impl Ord for Point2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        sqr_dist_2d(&origin, self)
-            .partial_cmp(&sqr_dist_2d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/point_3d.rs b/src/point_3d.rs
index 95b0488..fe83930 100644
--- a/src/point_3d.rs
+++ b/src/point_3d.rs
@@ -52,10 +52,8 @@ impl Eq for Point3D {}
 
 impl Ord for Point3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        sqr_dist_3d(&origin, self)
-            .partial_cmp(&sqr_dist_3d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 834976f..69ce7fe 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -39,14 +39,8 @@ impl Eq for Sphere {}
 
 impl Ord for Sphere {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        match sqr_dist_3d(&origin, &self.center).partial_cmp(&sqr_dist_3d(&origin, &other.center)) {
-            Some(x) => x,
-            None => self
-                .radius
-                .partial_cmp(&other.radius)
-                .unwrap_or(Ordering::Equal),
-        }
+        // must agree with PartialEq and PartialOrd
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
-- 
2.43.0


From ac85475ac738dd3b0277c359a9a7d9d8fa7a33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 54/56] fix: faces loaded from obj, off and ply into a mesh
 holding vertices connected those

---
 src/io/obj.rs      |  6 +++++-
 src/io/off.rs      |  6 +++++-
 src/io/ply/load.rs | 18 +++++++++++++++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cf8cc73..738643d 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -214,13 +214,17 @@ where
 {
     let iterator = ObjMeshIterator::new(read);
 
+    // the ids within the file start at zero
+    let first = mesh.num_vertices();
+
     for rd in iterator {
         match rd? {
             FaceData::Data(x) => {
                 mesh.add_vertex(x);
             }
             FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+                let [a, b, c] = [a, b, c].map(|x| VId(first.saturating_add(x)));
+                mesh.try_add_connection(a, b, c)
                     .map_err(|_| ObjError::InvalidMeshIndices)
                     .simple()?;
             }
diff --git a/src/io/off.rs b/src/io/off.rs
index bd039d5..d996d80 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -338,10 +338,14 @@ where
 {
     let iterator = OffMeshIterator::<P, R>::new(read);
 
+    // the ids within the file start at zero
+    let first = mesh.num_vertices();
+
     for rd in iterator {
         match rd? {
             FaceDataReserve::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+                let [a, b, c] = [a, b, c].map(|x| VId(first.saturating_add(x)));
+                mesh.try_add_connection(a, b, c)
                     .map_err(|_| OffError::InvalidMeshIndices)
                     .simple()?;
             }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index a9d2006..3efcfb4 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -91,6 +91,9 @@ where
 {
     let iterator = PlyMeshIterator::new(read)?;
 
+    // the ids within the file start at zero
+    let first = mesh.num_vertices();
+
     for fr in iterator {
         match fr? {
             FaceDataReserve::Data(p) => {
@@ -101,7 +104,8 @@ where
                 mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+                let [a, b, c] = [a, b, c].map(|x| VId(first.saturating_add(x)));
+                mesh.try_add_connection(a, b, c)
                     .or(Err(PlyError::InvalidMeshIndices))
                     .simple()?;
             }
@@ -191,13 +195,17 @@ where
 {
     let iterator = PlyBinaryMeshIterator::<BR, _, _>::new(read, header);
 
+    // the ids within the file start at zero
+    let first = mesh.num_vertices();
+
     for fd in iterator {
         match fd? {
             io::types::FaceData::Data(p) => {
                 mesh.add_vertex(p);
             }
             io::types::FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+                let [a, b, c] = [a, b, c].map(|x| VId(first.saturating_add(x)));
+                mesh.try_add_connection(a, b, c)
                     .or(Err(PlyError::InvalidMeshIndices))?;
             }
         }
@@ -221,13 +229,17 @@ where
 {
     let iterator = PlyAsciiMeshIterator::new(read, header, *i_line);
 
+    // the ids within the file start at zero
+    let first = mesh.num_vertices();
+
     for fd in iterator {
         match fd? {
             io::types::FaceData::Data(p) => {
                 mesh.add_vertex(p);
             }
             io::types::FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+                let [a, b, c] = [a, b, c].map(|x| VId(first.saturating_add(x)));
+                mesh.try_add_connection(a, b, c)
                     .or(Err(PlyError::InvalidMeshIndices))
                     .simple()?;
             }
-- 
2.43.0


From 568a72c7b83d29d8684125ee8f08e7391a3445c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 55/56] fix: perspective transformations neither divided by the
 depth nor kept the field of view in x

---
 src/matrix4.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix4.rs b/src/matrix4.rs
index b41d281..caf45cc 100644
--- a/src/matrix4.rs
+++ b/src/matrix4.rs
@@ -170,7 +170,7 @@ impl Matrix4 {
         let tan_fov_half = (fov_rad / 2.0).tan();
 
         let mut result = Matrix4::default();
-        result.data[0][0] = 1.0 / (tan_fov_half * away);
+        result.data[0][0] = 1.0 / tan_fov_half;
         result.data[0][1] = 0.0;
         result.data[0][2] = 0.0;
         result.data[0][3] = 0.0;
@@ -185,7 +185,7 @@ impl Matrix4 {
         result.data[3][0] = 0.0;
         result.data[3][1] = 0.0;
         result.data[3][2] = 1.0;
-        result.data[3][3] = 1.0;
+        result.data[3][3] = 0.0;
         result
     }
     /// Creates a new matrix which applies a look at transformation
-- 
2.43.0


From 473964b68e614331ce1c99a3969a3ed509c82eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 56/56] fix: bounding boxes collide exactly when their
 intervals overlap

The centers and sizes were compared, which rounds (and overflows for
large coordinates): boxes overlapping by little did not collide and
touching ones did.
---
 src/bounding_box_2d.rs |  7 ++++---
 src/bounding_box_3d.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index cc40768..72c0882 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -195,9 +195,10 @@ impl BoundingBox2D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox2D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < *(self.size_x() + other.size_x())
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < *(self.size_y() + other.size_y())
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
     }
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 7b2cd49..a62a59b 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -250,11 +250,12 @@ impl BoundingBox3D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox3D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < (*(self.size_x() + other.size_x()))
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < (*(self.size_y() + other.size_y()))
-            && 2.0 * (self.center_bb().z - other.center_bb().z).abs()
-                < (*(self.size_z() + other.size_z()))
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
+            && self.min.z() < other.max.z()
+            && other.min.z() < self.max.z()
     }
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
-- 
2.43.0


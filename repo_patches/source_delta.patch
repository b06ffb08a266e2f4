From bd75904b9d357bf81b548dcd9ab5ff136a40ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 01/28] verif: guarded re-exports for the external verification
 harness

---
 src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 54aad5e..dedd1dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,3 +40,35 @@
 #[allow(dead_code, unused_variables)] mod transform;
 #[allow(dead_code, unused_variables)] mod vector;
 pub mod api;
+
+/// Re-exports of internal items for the external verification harness. Only built with `--cfg pt_verif`.
+#[cfg(pt_verif)]
+pub mod verif {
+    pub use axis::*;
+    pub use bbox::*;
+    pub use bxdf_lambertian_reflection::*;
+    pub use bxdf_microfacet_reflection::*;
+    pub use bxdf_microfacet_transmission::*;
+    pub use bxdf_specular_reflection::*;
+    pub use bxdf_specular_transmission::*;
+    pub use camera::*;
+    pub use common::*;
+    pub use container::*;
+    pub use container_simple::*;
+    pub use film::*;
+    pub use filter::*;
+    pub use fresnel::*;
+    pub use interaction::*;
+    pub use light::*;
+    pub use matrix::*;
+    pub use microfacet::*;
+    pub use ray::*;
+    pub use reflection::*;
+    pub use sampler::*;
+    pub use sampling::*;
+    pub use scene::*;
+    pub use shape::*;
+    pub use texture::*;
+    pub use transform::*;
+    pub use vector::*;
+}
-- 
2.43.0


From c1446d1d461ff47dec2d95c3f709cba3b02ca96d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 02/28] fix: k-d tree must visit both children when the ray
 lies in the split plane

The split parameter is NaN there, which made the traversal order
non-monotone and ended it before all nodes were visited.
---
 src/container_kdtree.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..195b7cc 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -224,12 +224,20 @@ impl Container for KdTree {
                 return false;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // the remaining nodes are not necessarily farther, go on with them
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
@@ -243,7 +251,10 @@ impl Container for KdTree {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                if t_split.is_nan() {                 // ray lies in the split plane
+                    todos.push(Todo::new(child_2, t_min, t_max));
+                    node_i = child_1;
+                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
                 } else if t_split < t_min {           // ray does not intersect child_1
                     node_i = child_2;
@@ -306,13 +317,21 @@ impl Container for KdTree {
                 return None;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // the remaining nodes are not necessarily farther, go on with them
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
@@ -326,7 +345,10 @@ impl Container for KdTree {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                if t_split.is_nan() {                 // ray lies in the split plane
+                    todos.push(Todo::new(child_2, t_min, t_max));
+                    node_i = child_1;
+                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
                 } else if t_split < t_min {           // ray does not intersect child_1
                     node_i = child_2;
-- 
2.43.0


From 0395d20f275b7018d34a38f1bef6fcce29b74a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 03/28] fix: allow for rounding of split parameters in the k-d
 tree traversal

A ray through a vertex or edge on a split plane could leave a closed mesh
without a hit because the child holding the hit was culled by one ulp.
---
 src/container_kdtree.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 195b7cc..1f3f3a6 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -3,7 +3,7 @@ use std::sync::Arc;
 
 use axis::Axis;
 use bbox::BBox3f;
-use common::FLOAT_MAX;
+use common::{FLOAT_MAX, gamma};
 use container::Container;
 use interaction::Interaction;
 use ray::Ray;
@@ -243,6 +243,8 @@ impl Container for KdTree {
             let node = &self.nodes[node_i];
             if let &Node::Split(axis, t, above_index) = node {
                 let t_split = (t - ray.origin[axis]) / ray.direction[axis];
+                // bounds of the rounding error of t_split
+                let (t_split_0, t_split_1) = (t_split * (1. - gamma(4.)), t_split * (1. + gamma(4.)));
 
                 let (child_1, child_2) =
                     if ray.origin[axis] < t || ray.origin[axis] == t && ray.direction[axis] <= 0. {
@@ -254,14 +256,14 @@ impl Container for KdTree {
                 if t_split.is_nan() {                 // ray lies in the split plane
                     todos.push(Todo::new(child_2, t_min, t_max));
                     node_i = child_1;
-                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                } else if t_split_0 > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
-                } else if t_split < t_min {           // ray does not intersect child_1
+                } else if t_split_1 < t_min {         // ray does not intersect child_1
                     node_i = child_2;
                 } else {
-                    todos.push(Todo::new(child_2, t_split, t_max));
+                    todos.push(Todo::new(child_2, t_split_0, t_max));
                     node_i = child_1;
-                    t_max = t_split;
+                    t_max = t_split_1;
                 }
             } else {
                 match node {
@@ -337,6 +339,8 @@ impl Container for KdTree {
             let node = &self.nodes[node_i];
             if let &Node::Split(axis, t, above_index) = node {
                 let t_split = (t - ray.origin[axis]) / ray.direction[axis];
+                // bounds of the rounding error of t_split
+                let (t_split_0, t_split_1) = (t_split * (1. - gamma(4.)), t_split * (1. + gamma(4.)));
 
                 let (child_1, child_2) =
                     if ray.origin[axis] < t || ray.origin[axis] == t && ray.direction[axis] <= 0. {
@@ -348,14 +352,14 @@ impl Container for KdTree {
                 if t_split.is_nan() {                 // ray lies in the split plane
                     todos.push(Todo::new(child_2, t_min, t_max));
                     node_i = child_1;
-                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                } else if t_split_0 > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
-                } else if t_split < t_min {           // ray does not intersect child_1
+                } else if t_split_1 < t_min {         // ray does not intersect child_1
                     node_i = child_2;
                 } else {
-                    todos.push(Todo::new(child_2, t_split, t_max));
+                    todos.push(Todo::new(child_2, t_split_0, t_max));
                     node_i = child_1;
-                    t_max = t_split;
+                    t_max = t_split_1;
                 }
             } else {
                 match node {
-- 
2.43.0


From d12d72775768fef5688bf93cfd137c1429fc11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 04/28] fix: box test must not miss rays in a face with a
 negative zero direction component

---
 src/bbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..f01835f 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -90,7 +90,7 @@ impl BBox3f {
             // t_near and t_far could be NaN or Infinity
             let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
             let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
-            if t_near > t_far {
+            if ray.direction[axis].is_sign_negative() {
                 swap(&mut t_near, &mut t_far);
             }
             // to avoid epsilon
-- 
2.43.0


From a4f82a1d7b1d9da02857f09b3ff329ce8aa95ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 05/28] fix: fall back to the geometric normal when
 interpolated normals cancel

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From 2359cf799f55cd4ca17fade6d6d3b5f67cda53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 06/28] fix: use non-degenerate tangents at the poles of a
 sphere

The substitute coordinate was shadowed and did not reach the partial
derivatives, so the shading frame there was not a number.
---
 src/shape_sphere.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..fbdf0cf 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -76,12 +76,14 @@ impl Sphere {
 
         let p_err = Vector3f::from(p).abs() * gamma(5.);
 
+        // the parameterization is degenerate at the poles
+        let p_uv = if p.x * p.x + p.y * p.y == 0. {
+            Point3f::new(1e-5 * self.radius, 0., p.z)
+        } else {
+            p
+        };
         let phi = {
-            let mut p = p;
-            if p.x == 0. && p.y == 0. {
-                p.x = 1e-5 * self.radius;
-            }
-            let mut phi = p.y.atan2(p.x);
+            let mut phi = p_uv.y.atan2(p_uv.x);
             if phi < 0. {
                 phi += PI * 2.;
             }
@@ -92,7 +94,7 @@ impl Sphere {
 
         let n = Normal3f::from(p.normalize());
 
-        let (dpdu, dpdv) = self.compute_partial_derivative(p);
+        let (dpdu, dpdv) = self.compute_partial_derivative(p_uv);
 
         return (
             Interaction {
-- 
2.43.0


From 8e790536e4d43d480bf8e68cf7e3b79f1823e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 07/28] fix: sampled triangle normals follow the vertex normals
 like hit normals do

---
 src/shape_triangle.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..847d46c 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -305,6 +305,15 @@ impl Shape for Triangle {
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        // same side as in intersect
+        if let Some(vertex_normals) = self.vertex_normals {
+            let sn = vertex_normals[0] * b0
+                   + vertex_normals[1] * b1
+                   + vertex_normals[2] * b2;
+            if n.dot(sn) < 0. {
+                n *= -1.;
+            }
+        }
         if self.reverse_orientation {
             n *= -1.;
         }
-- 
2.43.0


From 025b3d98d0ee7e27d8f467ac114fc242b498ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 08/28] fix: transformed boxes must enclose the images of all
 eight corners

---
 src/transform.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..f3c2df7 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,18 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        // an image of a corner may end up anywhere, so all eight of them have to be enclosed
+        let p = self.min._transform(m, m_inv);
+        let mut b = BBox3f::new(p, p);
+        for i in 1..8 {
+            let corner = Point3f::new(
+                if i & 1 == 0 { self.min.x } else { self.max.x },
+                if i & 2 == 0 { self.min.y } else { self.max.y },
+                if i & 4 == 0 { self.min.z } else { self.max.z },
+            );
+            b = b.union_point(corner._transform(m, m_inv));
+        }
+        return b;
     }
 }
 
-- 
2.43.0


From 87fd495d23be465050384e3e6f8632217acced17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 09/28] fix: modular inverse of the Halton sampler must not
 drop the sign

---
 src/sampler_halton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..4cfc441 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,7 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    return (((x % n as i64) + n as i64) % n as i64) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From 843fd4659a7cc15ddd2a06bf199d52d55126a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 10/28] fix: radical inverse must not overflow 32 bits

---
 src/sampler_halton.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 4cfc441..7c86168 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -142,12 +142,13 @@ impl Sampler for HaltonSampler {
 }
 
 fn radical_inverse(base: u32, mut a: u32) -> f32 {
-    let mut x = 0;
-    let mut base_n = 1;
+    // these may exceed 32 bits for large bases
+    let mut x = 0u64;
+    let mut base_n = 1u64;
     while a > 0 {
-        x = x * base + a % base;
+        x = x * base as u64 + (a % base) as u64;
         a /= base;
-        base_n *= base;
+        base_n *= base as u64;
     }
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
-- 
2.43.0


From 3daf576f68fae18cd5dd2f1a3f8410760544653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 11/28] fix: density of microfacet normals is D times the
 cosine

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From 02c6c23b7957e2779970fb8c15cd16e1190b7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 12/28] fix: rough reflection must use the Fresnel term of the
 side the light is on

---
 src/bxdf_microfacet_reflection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..d7ac0e7 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -38,7 +38,9 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-        let f = self.fresnel.evaluate(wh.dot(wi));
+        // the sign of the cosine tells Fresnel which side of the surface the light is on
+        let cos_i = if wh.z < 0. { -wh.dot(wi) } else { wh.dot(wi) };
+        let f = self.fresnel.evaluate(cos_i);
         return self.r * d * g * f
             / (4. * cos_theta_o * cos_theta_i);
     }
-- 
2.43.0


From fe5592354768a410ac3b13004d8358b2346fed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 13/28] fix: no rough transmission through microfacets seen
 from behind

---
 src/bxdf_microfacet_transmission.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..2a35483 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -23,6 +23,11 @@ impl MicrofacetTransmissionBTDF {
             fresnel: FresnelDielectric::new(eta_a, eta_b),
         }
     }
+
+    /// A microfacet transmits light only between directions which both see it from the side they see the surface from.
+    fn is_visible(wo: Vector3f, wi: Vector3f, wh: Vector3f) -> bool {
+        wo.dot(wh) * wo.z * wh.z > 0. && wi.dot(wh) * wi.z * wh.z > 0.
+    }
 }
 
 impl BxDF for MicrofacetTransmissionBTDF {
@@ -50,6 +55,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         if wh.z < 0. {
             wh *= -1.;
         }
+        if !MicrofacetTransmissionBTDF::is_visible(wo, wi, wh) {
+            return Spectrum::default();
+        }
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
@@ -64,6 +72,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         }
 
         let wh = self.distribution.sample_wh(wo, sample);
+        if wo.dot(wh) <= 0. {
+            return Default::default();
+        }
         let eta = if cos_theta(wo) > 0. {
             self.eta_a / self.eta_b
         } else {
@@ -92,6 +103,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
             self.eta_a / self.eta_b
         };
         let wh = (wo + wi * eta).normalize();
+        if !MicrofacetTransmissionBTDF::is_visible(wo, wi, wh) {
+            return 0.;
+        }
 
         let sqrt_denom = wo.dot(wh) + wi.dot(wh) * eta;
         let dwh_dwi = (wi.dot(wh) * eta * eta / sqrt_denom.powi(2)).abs();
-- 
2.43.0


From 178615e273367a6913c37c43e27181b333fe627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 14/28] fix: the value of a sample from a single lobe must
 respect the geometric normal, too

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From 1d102cae934bcdaf8e2efd66f4d60279ede4e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 15/28] fix: no NaN from the microfacet distribution at extreme
 grazing angles

---
 src/microfacet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..81cf7be 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -1,5 +1,5 @@
 use common::PI;
-use reflection::{cos_2_theta, abs_cos_theta, tan_theta, tan_2_theta, cos_2_phi, sin_2_phi, same_hemisphere};
+use reflection::{cos_2_theta, sin_2_theta, abs_cos_theta, tan_theta, tan_2_theta, cos_2_phi, sin_2_phi, same_hemisphere};
 use vector::{Vector3f, Point2f};
 
 /// GGX(Trowbridge–Reitz) Microfacet Distribution.
@@ -19,11 +19,11 @@ impl MicrofacetDistribution {
         if tan_2_theta.is_infinite() {
             return 0.;
         }
-        let cos_4_theta = cos_2_theta(wh).powi(2);
+        // multiplied out, as the power of a tiny cosine underflows where that of the tangent overflows
         let e = (cos_2_phi(wh) / self.alpha_x.powi(2) + sin_2_phi(wh) / self.alpha_y.powi(2))
-              * tan_2_theta;
+              * sin_2_theta(wh);
         return 1.
-            / (PI * self.alpha_x * self.alpha_y * cos_4_theta * (1. + e).powi(2));
+            / (PI * self.alpha_x * self.alpha_y * (cos_2_theta(wh) + e).powi(2));
     }
 
     /// Invisible masked microfacet area per visible microfacet area.
-- 
2.43.0


From 2eec16086336842101076af2a614f6b554ce8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 16/28] fix: density of rough reflection must not turn negative
 by cancellation

---
 src/bxdf_microfacet_reflection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index d7ac0e7..c07a3f0 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -57,7 +57,7 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
         }
 
         let f = self.f(wo, wi);
-        let pdf = self.distribution.pdf(wo, wh) / (wh.dot(wo) * 4.);
+        let pdf = self.distribution.pdf(wo, wh) / (wh.dot(wo).abs() * 4.);
 
         return (wi, f, pdf);
     }
@@ -67,6 +67,6 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
             return 0.;
         }
         let wh = (wo + wi).normalize();
-        return self.distribution.pdf(wo, wh) / (wh.dot(wo) * 4.);
+        return self.distribution.pdf(wo, wh) / (wh.dot(wo).abs() * 4.);
     }
 }
-- 
2.43.0


From 5a954ceb44479f931bcc7dea7d6b490239b6fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 17/28] fix: density of sampling a shape must be per solid
 angle

---
 src/shape.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..d8f4ef9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,16 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// Return pdf, with respect to solid angle, of sampling the direction wi by sample_ref.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        if let Some((i, _)) = self.intersect(&ref_i.spawn_ray(wi)) {
+            let d = i.p - ref_i.p;
+            let pdf = d.dot(d) / (wi.dot_n(i.n).abs() * self.area());
+            if pdf.is_finite() {
+                return pdf;
+            }
+        }
+        return 0.;
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From 951db64942fe1e344c46f494794e8c7f3e4ffbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 18/28] fix: round to the nearest level once when writing the
 image

---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index c967f36..ffa40ee 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255., 0., 255.).round();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 09ab9c087f56a4943e7a01b4354c0798bef31962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 19/28] fix: do not count light seen by specular scattering
 twice

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..a73af55 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -146,16 +146,14 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
         if !light.is_delta() {
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
+            // Light seen by way of specular scattering is added by li() after the bounce.
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            if !sampled_specular && scattering_pdf > 0. && !f.is_black() {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From 48d14e2e84633a327f000a8a54c00efcd7573f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 20/28] fix: truncate the output file before writing the image

---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index a73af55..40ebb44 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From 592e24c021bd3cddd9dbee1e3603bd74d4ffc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 21/28] fix: report a failure to write the end of the image

---
 src/integrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 40ebb44..d6d66be 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -1,6 +1,6 @@
 use std::cmp::min;
 use std::fs::OpenOptions;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
 
@@ -80,6 +80,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
                 .unwrap()
         );
         self.film.write_image_ppm(&mut file);
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 301bc83ea81959d7437af0f0a0838e4fbdcf7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 22/28] fix: a scene without shapes has an empty bounding box

---
 src/bbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bbox.rs b/src/bbox.rs
index f01835f..1bfd03c 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,6 +23,9 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
+        if shapes.is_empty() {
+            return BBox3f::new(Point3f::default(), Point3f::default());
+        }
         shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
     }
 
-- 
2.43.0


From 57954758d8b675597fb0a7e4062b450bbc09242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 23/28] fix: end paths that carry nothing instead of dividing
 by zero

---
 src/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index d6d66be..bfaae57 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -220,7 +220,7 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             bounces += 1;
             if bounces > 3 {
                 let q = beta.y().min(0.95);
-                if sampler.get_1d() > q {
+                if sampler.get_1d() >= q {
                     break;
                 }
                 beta /= q;
-- 
2.43.0


From eb2d07a5ed098102ca4eb15bcdeef157bd7b7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 24/28] fix: weights of strategies must not overflow for large
 densities

---
 src/sampling.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index 1d7d7b6..3e678ec 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -26,5 +26,10 @@ pub fn cosine_sample_hemisphere(u: Point2f) -> Vector3f {
 pub fn power_heuristic(n1: u32, pdf1: f32, n2: u32, pdf2: f32) -> f32 {
     let f = pdf1 * n1 as f32;
     let g = pdf2 * n2 as f32;
-    return (f * f) / (f * f + g * g);
+    if f == 0. {
+        return 0.;
+    }
+    // by the ratio, as the square of a density may leave the range of f32
+    let r = g / f;
+    return 1. / (1. + r * r);
 }
-- 
2.43.0


From e7a44e0c0e80e8aaaf1838deb1176101a4cc14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 25/28] fix: hit point of a tiny sphere seen from far away must
 not be at its center

---
 src/shape_sphere.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index fbdf0cf..10ddd6d 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -72,6 +72,10 @@ impl Sphere {
 
     fn compute_interaction(&self, ray: &Ray, t: f32) -> (Interaction, f32) {
         let mut p = ray.position(t);
+        if p.length() == 0. {
+            // seen from far away, rounding can put the hit point of a tiny sphere at its center
+            p = Point3f::from(-ray.direction);
+        }
         p *= self.radius / p.length();
 
         let p_err = Vector3f::from(p).abs() * gamma(5.);
-- 
2.43.0


From fc4a519298fe1c5f18c933614fc63d427b299bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 26/28] fix: rays almost in the plane of a triangle must not
 slip through it

---
 src/shape_triangle.rs | 78 +++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index 847d46c..febf152 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -57,6 +57,38 @@ impl Triangle {
             Point2f::new(1., 1.),
         ]
     }
+
+    /// Compute t in double precision, for rays that start very close to the triangle or see it edge on.
+    /// `vs` are the vertices in the ray coordinate system.
+    fn t_precise(&self, ray: &Ray, vs: &[Point3f; 3]) -> f32 {
+        let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
+        let cross = |a: [f64; 3], b: [f64; 3]| [
+            a[1] * b[2] - a[2] * b[1],
+            a[2] * b[0] - a[0] * b[2],
+            a[0] * b[1] - a[1] * b[0],
+        ];
+        let d = [ray.direction.x as f64, ray.direction.y as f64, ray.direction.z as f64];
+        let mut rs = [[0.; 3]; 3];
+        for i in 0..3 {
+            for j in 0..3 {
+                rs[i][j] = self.vertices[i][j] as f64 - ray.origin[j] as f64;
+            }
+        }
+        let (c0, c1, c2) = (cross(rs[1], rs[2]), cross(rs[2], rs[0]), cross(rs[0], rs[1]));
+        let (e0, e1, e2) = (dot(d, c0), dot(d, c1), dot(d, c2));
+        let det = e0 + e1 + e2;
+        if e0 / det > -0.01 && e1 / det > -0.01 && e2 / det > -0.01 {
+            let n = [c0[0] + c1[0] + c2[0], c0[1] + c1[1] + c2[1], c0[2] + c1[2] + c2[2]];
+            return (dot(n, rs[0]) / det) as f32;
+        }
+
+        // The ray runs inside the plane of the triangle, as far as the ray coordinate system can tell.
+        // Be consistent with the neighbours of the triangle, which have the same edges.
+        let edge = |a: Point3f, b: Point3f| a.x as f64 * b.y as f64 - a.y as f64 * b.x as f64;
+        let es = [edge(vs[1], vs[2]), edge(vs[2], vs[0]), edge(vs[0], vs[1])];
+        let t = dot(es, [vs[0].z as f64, vs[1].z as f64, vs[2].z as f64]) / (es[0] + es[1] + es[2]);
+        return t as f32;
+    }
 }
 
 impl Shape for Triangle {
@@ -107,16 +139,9 @@ impl Shape for Triangle {
         for p in vs.iter_mut() {
             p.z *= sz;
         }
-        let t_scaled = vs[0].z * e0 + vs[1].z * e1 + vs[2].z * e2;
-        if (det < 0. && (t_scaled < ray.t_max * det || 0. <= t_scaled))
-            || (det > 0. && (t_scaled <= 0. || ray.t_max * det < t_scaled))
-        {
-            return false;
-        }
+        let mut t = (vs[0].z * e0 + vs[1].z * e1 + vs[2].z * e2) / det;
 
-        let t = t_scaled / det;
-
-        // ensure t > 0
+        // rounding error of t
         let max_x = Vector3f::new(vs[0].x, vs[1].x, vs[2].x).abs().max_component();
         let max_y = Vector3f::new(vs[0].y, vs[1].y, vs[2].y).abs().max_component();
         let max_z = Vector3f::new(vs[0].z, vs[1].z, vs[2].z).abs().max_component();
@@ -128,7 +153,12 @@ impl Shape for Triangle {
         let delta_t = 3.
                     * (gamma(3.) * max_e * max_z + max_z * delat_e + max_e * delta_z)
                     / det.abs();
-        if t <= delta_t {
+        if t.abs() <= delta_t {
+            t = self.t_precise(ray, &vs);
+        }
+
+        // ensure 0 < t <= t_max
+        if !(t > 0. && t <= ray.t_max) {
             return false;
         }
 
@@ -173,21 +203,9 @@ impl Shape for Triangle {
         for p in vs.iter_mut() {
             p.z *= sz;
         }
-        let t_scaled = vs[0].z * e0 + vs[1].z * e1 + vs[2].z * e2;
-        if (det < 0. && (t_scaled < ray.t_max * det || 0. <= t_scaled))
-            || (det > 0. && (t_scaled <= 0. || ray.t_max * det < t_scaled))
-        {
-            return None;
-        }
+        let mut t = (vs[0].z * e0 + vs[1].z * e1 + vs[2].z * e2) / det;
 
-        // barycentric coordinates
-        let b0 = e0 / det;
-        let b1 = e1 / det;
-        let b2 = e2 / det;
-
-        let t = t_scaled / det;
-
-        // ensure t > 0
+        // rounding error of t
         let max_x = Vector3f::new(vs[0].x, vs[1].x, vs[2].x).abs().max_component();
         let max_y = Vector3f::new(vs[0].y, vs[1].y, vs[2].y).abs().max_component();
         let max_z = Vector3f::new(vs[0].z, vs[1].z, vs[2].z).abs().max_component();
@@ -199,10 +217,20 @@ impl Shape for Triangle {
         let delta_t = 3.
                     * (gamma(3.) * max_e * max_z + max_z * delat_e + max_e * delta_z)
                     / det.abs();
-        if t <= delta_t {
+        if t.abs() <= delta_t {
+            t = self.t_precise(ray, &vs);
+        }
+
+        // ensure 0 < t <= t_max
+        if !(t > 0. && t <= ray.t_max) {
             return None;
         }
 
+        // barycentric coordinates
+        let b0 = e0 / det;
+        let b1 = e1 / det;
+        let b2 = e2 / det;
+
         let p = vs_o[0] * b0
               + vs_o[1] * b1
               + vs_o[2] * b2;
-- 
2.43.0


From 8032e5fd94d814e477b9c26560cdc5c6bdec1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 27/28] fix: the coat of plastic must be an interface from air
 to plastic

The indices of refraction were exchanged: seen from outside, the coat
reflected all light beyond 42 degrees from the normal, which is what an
interface does at its inner side.
---
 src/material_plastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_plastic.rs b/src/material_plastic.rs
index 9b03e89..842311b 100644
--- a/src/material_plastic.rs
+++ b/src/material_plastic.rs
@@ -35,7 +35,7 @@ impl Material for PlasticMaterial {
         }
 
         if !s.is_black() {
-            let fresnel = FresnelDielectric::new(1.5, 1.);
+            let fresnel = FresnelDielectric::new(1., 1.5);
             let rough = self.roughness.evaluate(i);
             if rough == 0. {
                 bsdf.add(SpecularReflectionBRDF::new(s, fresnel));
-- 
2.43.0


From 9f0a9cc87e8bbd8bdd85d632f79c38233c8550e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 28/28] fix: surfaces that are smooth along one direction only
 must not scatter not-a-number

A roughness of zero (or next to it) in one direction made the microfacet
distribution divide by zero: such metal and glass lost all their samples.
---
 src/microfacet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 81cf7be..07d44c0 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -2,6 +2,9 @@ use common::PI;
 use reflection::{cos_2_theta, sin_2_theta, abs_cos_theta, tan_theta, tan_2_theta, cos_2_phi, sin_2_phi, same_hemisphere};
 use vector::{Vector3f, Point2f};
 
+/// Surfaces smoother than this (in one direction or in both) cannot be computed with.
+const MIN_ALPHA: f32 = 1e-3;
+
 /// GGX(Trowbridge–Reitz) Microfacet Distribution.
 #[derive(Clone, Copy)]
 pub struct MicrofacetDistribution {
@@ -11,7 +14,7 @@ pub struct MicrofacetDistribution {
 
 impl MicrofacetDistribution {
     pub fn new(alpha_x: f32, alpha_y: f32) -> MicrofacetDistribution {
-        MicrofacetDistribution { alpha_x, alpha_y }
+        MicrofacetDistribution { alpha_x: alpha_x.max(MIN_ALPHA), alpha_y: alpha_y.max(MIN_ALPHA) }
     }
 
     pub fn d(&self, wh: Vector3f) -> f32 {
-- 
2.43.0


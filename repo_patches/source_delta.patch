From 4c656eaaa0b165b4f8cd5fcac7ef4eec20686296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 01/15] fix: transform all eight corners of a bounding box

---
 src/transform.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..eab1c2f 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,16 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        // every corner is needed: a rotated box is not spanned by the images of two opposite corners
+        let corner = |x, y, z| Point3f::new(x, y, z)._transform(m, m_inv);
+        let (min, max) = (self.min, self.max);
+        BBox3f::new(corner(min.x, min.y, min.z), corner(max.x, max.y, max.z))
+            .union_point(corner(max.x, min.y, min.z))
+            .union_point(corner(min.x, max.y, min.z))
+            .union_point(corner(min.x, min.y, max.z))
+            .union_point(corner(min.x, max.y, max.z))
+            .union_point(corner(max.x, min.y, max.z))
+            .union_point(corner(max.x, max.y, min.z))
     }
 }
 
-- 
2.43.0


From d8495499e5e0754643364d631bbaa9c4e87cb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 02/15] fix: intersect boxes with rays parallel to their faces

---
 src/bbox.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..18ffd1f 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -87,7 +87,16 @@ impl BBox3f {
 
         let mut axis = Axis::X;
         for _ in 0..3 {
-            // t_near and t_far could be NaN or Infinity
+            // the ray is parallel to the slab, its direction could be -0
+            if ray.direction[axis] == 0. {
+                if ray.origin[axis] < self.min[axis] || self.max[axis] < ray.origin[axis] {
+                    return None;
+                }
+                axis = axis.next();
+                continue;
+            }
+
+            // t_near and t_far could be Infinity
             let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
             let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
             if t_near > t_far {
-- 
2.43.0


From 0456cb555dff144adb9edd139a960878558205bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 03/15] fix: do not panic on an empty list of shapes

---
 src/bbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bbox.rs b/src/bbox.rs
index 18ffd1f..6c22d64 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,6 +23,9 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
+        if shapes.is_empty() {
+            return BBox3f::new(Point3f::default(), Point3f::default());
+        }
         shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
     }
 
-- 
2.43.0


From f5e9b65246c01a551bbf04b0a155b4430e680096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 04/15] fix: report zero as a double root of a quadratic
 equation

---
 src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index be7d004..a115045 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -79,6 +79,9 @@ pub fn quadratic(a: f64, b: f64, c: f64) -> Option<(f64, f64)> {
     } else {
         -0.5 * (b + root_discrim)
     };
+    if q == 0. { // b == 0 and c == 0
+        return Some((0., 0.));
+    }
 
     let (mut t0, mut t1) = (q / a, c / q);
     if t0 > t1 {
-- 
2.43.0


From 3f89b1313699e0d5ef8cdad59de8ce784b4f7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 05/15] fix: give sphere hits at the poles a finite tangent
 frame

---
 src/shape_sphere.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..a61e5a3 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -62,6 +62,12 @@ impl Sphere {
             0.,
         );
         let r_sin_theta = (x * x + y * y).sqrt(); // r * sin(theta) = (r^2 - z^2)^0.5 or (x^2 + y^2)^0.5
+        if r_sin_theta == 0. { // any tangent frame will do at the poles
+            return (
+                Vector3f::new(0., 2. * PI * self.radius, 0.),
+                Vector3f::new(PI * z, 0., 0.),
+            );
+        }
         let dpdv = Vector3f::new(
             PI * z * x/r_sin_theta,
             PI * z * y/r_sin_theta,
-- 
2.43.0


From 5a2035be2af277dd81f0afb24b1444b78b53f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 06/15] fix: fall back to the face normal when vertex normals
 cancel

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From dcca43a5d3990cd213c0f35a0d68f8e60a98a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 07/15] fix: check the side of the surface for a single sampled
 lobe too

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From 88154a7d610fcd003e9a17ac05a56562c2b46237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 08/15] fix: multiply the half-vector distribution by the
 cosine to get its density

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From 6070fc9e703b6bbe3a40327648739dd2d9b512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 09/15] fix: report light densities per solid angle

---
 src/shape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..06c6b38 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,15 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// pdf returns the density of sample_ref with respect to the solid angle seen from ref_i.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        if let Some((i, _)) = self.intersect(&ref_i.spawn_ray(wi)) {
+            let d = i.p - ref_i.p;
+            let pdf = d.dot(d) / (wi.dot_n(i.n).abs() * self.area());
+            if pdf.is_finite() { pdf } else { 0. }
+        } else {
+            0.
+        }
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From 65de8431347ba57ed99e9b021ca5df0772a165d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 10/15] fix: do not round pixel values twice

---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index c967f36..6a1f6ae 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).floor();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 034ff200d9de896e7d9fba62fef662f46cdadfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 11/15] fix: reduce negative Bezout coefficients modulo n

---
 src/sampler_halton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..271fb7f 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,8 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    let n = n as i64;
+    return ((x % n + n) % n) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From 2368f01085ed3bda9ff53af0d7c86852346e89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 12/15] fix: keep radical inverses of large indices from
 overflowing

---
 src/sampler_halton.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 271fb7f..9e2c06d 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -142,12 +142,12 @@ impl Sampler for HaltonSampler {
 }
 
 fn radical_inverse(base: u32, mut a: u32) -> f32 {
-    let mut x = 0;
-    let mut base_n = 1;
+    let mut x: u64 = 0;
+    let mut base_n: u64 = 1;
     while a > 0 {
-        x = x * base + a % base;
+        x = x * base as u64 + (a % base) as u64;
         a /= base;
-        base_n *= base;
+        base_n *= base as u64;
     }
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
-- 
2.43.0


From a42cf0582d9c0497300d89a21be72ad6ba480729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 13/15] fix: do not add light seen by specular bounces twice

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..f882c82 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -147,15 +147,13 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            // light seen by specular reflection or transmission is added by li()
+            if !sampled_specular && scattering_pdf > 0. && !f.is_black() {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From 932fb9196b3ad8835ddee2c0741364d2a5fa8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 14/15] fix: truncate the output file before writing the image

---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index f882c82..34e9e33 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From db0303db7b5cf53ad5ddcaa244de5108175c51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 15/15] fix: find the closest hit of rays that lie in a split
 plane

---
 src/container_kdtree.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..5e403fd 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -243,7 +243,10 @@ impl Container for KdTree {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                if t_split.is_nan() {                 // ray lies in the split plane
+                    todos.push(Todo::new(child_2, t_min, t_max));
+                    node_i = child_1;
+                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
                 } else if t_split < t_min {           // ray does not intersect child_1
                     node_i = child_2;
@@ -306,12 +309,19 @@ impl Container for KdTree {
                 return None;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
+                // the nodes left need not be in the order of t_min
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                }
                 break;
             }
 
@@ -326,7 +336,10 @@ impl Container for KdTree {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                if t_split.is_nan() {                 // ray lies in the split plane
+                    todos.push(Todo::new(child_2, t_min, t_max));
+                    node_i = child_1;
+                } else if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
                     node_i = child_1;
                 } else if t_split < t_min {           // ray does not intersect child_1
                     node_i = child_2;
-- 
2.43.0


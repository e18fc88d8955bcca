From 691951e105bbf7e5e8511136e1749399827e71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:36 +0000
Subject: [PATCH 01/39] fix: fill a new n-diagonal matrix with the value
 requested

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From 68f3659eec504f3b0ad4a6979222b50904310d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:36 +0000
Subject: [PATCH 02/39] fix: do not count elements beyond the last column of a
 narrow n-diagonal matrix

---
 matrix/src/n_diag_generic_matrix.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index d815326..11bff50 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -92,8 +92,12 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         let s = one_sided_n!(N);
         let n_zeroes_before = Self::zeroes_before(row);
         if row < s {
-            // top padding
-            s + 1 + row
+            // top padding (never more than what fits in the matrix)
+            if s + 1 + row < ncols {
+                s + 1 + row
+            } else {
+                ncols
+            }
         } else if n_zeroes_before + N <= ncols {
             // somewhere passed the top padding.
             N
-- 
2.43.0


From a93d1a8f789dd92b968b475062341a96ac67c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 03/39] fix: refuse a result matrix of the wrong size when
 adding or substracting

---
 matrix/src/generic_matrix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index 3a6c928..c5c7504 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -182,6 +182,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being added are of different sizes".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when adding is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
@@ -204,6 +207,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being substracted are not the same size".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when substracting is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
-- 
2.43.0


From 2cdc6522173fc2f37d209147967e0da045b1d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 04/39] fix: add 225 or more days to a date without truncating
 the count

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From fb7ee6b1289427d0533a822be219962eb1bc2c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:27 +0000
Subject: [PATCH 05/39] fix: stop iterating a period that goes through the New
 Year when a step jumps over its end

---
 calendar/src/period.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..eb12dbd 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -133,9 +133,10 @@ impl Iterator for Period {
 
         // println!("     ---- old = {} | new = {} | end = {} |||| vs_end_before = {} | vs_end_after = {} | crossed_new? = {}", old, new, self.end, vs_end_before, vs_end_after, crossed_ny);
 
-        // if !self.goes_through_new_year && (crossed_end || crossed_ny)
-        //     || self.goes_through_new_year && crossed_end && !crossed_ny
-        if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
+        // Crossing the New Year is only allowed once, by periods that go through it,
+        // and as long as it does not jump over the end of the period.
+        let can_cross_ny = self.goes_through_new_year && !vs_end_before && vs_end_after;
+        if (crossed_ny || crossed_end) && (!crossed_ny || !can_cross_ny) {
             return None;
         }
         self.current = new;
-- 
2.43.0


From 22c3ab3a95f4e6de95fb95649371199bff4ab9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 06/39] fix: invert composed transforms in the right order (and
 orient cylinders with it)

---
 geometry/src/cylinder3d.rs | 2 +-
 geometry/src/transform.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/cylinder3d.rs b/geometry/src/cylinder3d.rs
index 4d18a31..74dc4d7 100644
--- a/geometry/src/cylinder3d.rs
+++ b/geometry/src/cylinder3d.rs
@@ -72,8 +72,8 @@ impl Cylinder3D {
         let rot_y_degrees = (x * x + y * y).sqrt().atan2(z).to_degrees();
         let rot_z_degrees = y.atan2(x).to_degrees();
 
-        transform *= Transform::rotate_y(rot_y_degrees);
         transform *= Transform::rotate_z(rot_z_degrees);
+        transform *= Transform::rotate_y(rot_y_degrees);
 
         Self::new_transformed(
             radius,
diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..70afa41 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,7 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From 2391848482212ed104b556d2a608c51e2502379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 07/39] fix: a ray that crosses the plane of a triangle outside
 of it does not hit it

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..b25fdac 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -57,7 +57,7 @@ pub fn intersect_triangle(
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if v < 0.0 || u + v > 1.0 {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From 201622c80fc74c7666c5f962cafba26d21f38ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 08/39] fix: keep the bounds of subtracted and negated
 approximate numbers conservative

---
 geometry/src/round_error.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geometry/src/round_error.rs b/geometry/src/round_error.rs
index 8bfa067..973a2ef 100644
--- a/geometry/src/round_error.rs
+++ b/geometry/src/round_error.rs
@@ -169,8 +169,8 @@ impl std::ops::Neg for ApproxFloat {
 
     fn neg(self) -> Self::Output {
         Self {
-            low: -self.low,
-            high: -self.high,
+            low: -self.high,
+            high: -self.low,
         }
     }
 }
@@ -199,8 +199,8 @@ impl std::ops::Sub for ApproxFloat {
 
     fn sub(self, other: Self) -> Self {
         Self {
-            low: next_float_down(self.low - other.low),
-            high: next_float_up(self.high - other.high),
+            low: next_float_down(self.low - other.high),
+            high: next_float_up(self.high - other.low),
         }
     }
 }
@@ -327,8 +327,9 @@ impl std::ops::AddAssign<Float> for ApproxFloat {
 
 impl std::ops::SubAssign for ApproxFloat {
     fn sub_assign(&mut self, other: Self) {
-        self.low = next_float_down(self.low - other.low);
-        self.high = next_float_up(self.high - other.high);
+        let (low, high) = (self.low - other.high, self.high - other.low);
+        self.low = next_float_down(low);
+        self.high = next_float_up(high);
     }
 }
 
-- 
2.43.0


From 45811acc6b637bb5c8c8fe6864dcfa529546f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 09/39] fix: count the crossings of a ray through a vertex of a
 loop consistently

Loop3D::test_point missed crossings at vertices and for rays whose end fell
short, and so classified points of the polygon as outside (or vice versa).
---
 geometry/src/loop3d.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..45eb5da 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -716,9 +716,14 @@ impl Loop3D {
             return Ok(false);
         }
 
-        // Ray cast
-        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
-        let ray = Segment3D::new(point, point + d);
+        // Ray cast, in the direction that goes from the middle of the first
+        // segment to the point
+        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
+
+        // On which side of the ray is a vertex? Each vertex is on one side only
+        // (those in the ray are considered to be on the positive side), so a ray
+        // that goes through a vertex is counted consistently by both its segments
+        let side = |vertex: Point3D| -> Float { self.normal * d.cross(vertex - point) };
 
         let mut n_cross = 0;
         let n = self.vertices.len();
@@ -732,28 +737,15 @@ impl Loop3D {
                 return Ok(true);
             }
 
-            // Check if the ray and the segment touch. We only consider
-            // touching at the start (e.g., t_a between [0 and 1) ) in
-            // order not to count vertices twice.
-            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
-                // If the ray intersects
-                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
-                    if t_a < Float::EPSILON {
-                        // if the intersection is at the start of the segment
-                        let side_normal = d.cross(segment_ab.as_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    } else if t_a < 1. {
-                        // intersection is within the segment (not including the end)
-                        n_cross += 1;
-                    } else {
-                        // if the intersection is at the end of the segment
-                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    }
+            // Check if the segment goes from one side of the ray to the other
+            let side_a = side(vertex_a);
+            let side_b = side(vertex_b);
+            if (side_a >= 0.) != (side_b >= 0.) {
+                // ... and that it does so ahead of the point
+                let t = side_a / (side_a - side_b);
+                let crossing = vertex_a + segment_ab.as_vector3d() * t;
+                if (crossing - point) * d > 0. {
+                    n_cross += 1;
                 }
             }
         }
-- 
2.43.0


From 6099baef5f79b8e04a4620e34cf9da3a566dff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 10/39] fix: walk around a hole backwards without skipping
 vertices

(a - b) as usize % n is not the modulus of a negative number unless n is a
power of two, so holes with e.g. three vertices were merged incorrectly.
---
 geometry/src/polygon3d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..061ab17 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,9 +345,10 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + 2 * n_inner_loop_vertices - j)
+                                % n_inner_loop_vertices
                         } else {
-                            (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + j) % n_inner_loop_vertices
                         };
 
                         let inner_vertex = self.inner[min_inner_loop_id][vertex_to_add];
-- 
2.43.0


From 7309e610ccae0440f5cdade2f48c900aba7ac0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 11/39] fix: do not clip reflex corners when triangulating a
 polygon with holes

The loop that goes around a hole touches itself, so a valid diagonal does not
imply that the triangle it cuts is inside of the polygon.
---
 geometry/src/triangulation3d.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 5652d9e..abb2050 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -234,10 +234,13 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
             let potential_diag = Segment3D::new(v0, v2);
             let is_line = v0.is_collinear(v1, v2)?;
+            // In a loop that goes around holes (i.e., that touches itself), a
+            // diagonal might leave the triangle outside of the polygon
+            let is_convex = (v1 - v0).cross(v2 - v1) * the_loop.normal() > 0.;
 
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
-            if (n == 3) || (!is_line && is_diagonal) {
+            if (n == 3) || (!is_line && is_convex && is_diagonal) {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
-- 
2.43.0


From f390a7efa80aeca14d9c48e721297fbff2eedd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:35 +0000
Subject: [PATCH 12/39] fix: dates after the last weather record are
 interpolated towards next year's first record, not a year further

---
 weather/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..7c1001a 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,11 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let mut date_n = date.day_of_year();
+                    if i == 0 {
+                        // before the first date, so it is already next year
+                        date_n += 365.;
+                    }
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From ab8ff2c08af7d15862f17520545277a5ad815dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 13/39] fix: EPW wind directions are capped at 360 degrees
 instead of being raised to it

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From 7c5ad059247c1a554ddb974934e3c82dbd225b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 14/39] fix: layers seen from the back of a construction show
 their back absorptance first

---
 heat/src/glazing.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 020764e..91e7f0d 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -64,7 +64,12 @@ impl Glazing {
         }
     }
 
-    fn get_glazing_from_iter<T>(mut i: T, model: &Model, cap: usize) -> Result<Vec<Glazing>, String>
+    fn get_glazing_from_iter<T>(
+        mut i: T,
+        model: &Model,
+        cap: usize,
+        from_back: bool,
+    ) -> Result<Vec<Glazing>, String>
     where
         T: std::iter::Iterator<Item = String>,
     {
@@ -81,8 +86,12 @@ impl Glazing {
                 Substance::Normal(s) => {
                     // if it is a normal, the push it
                     let tau = s.solar_transmittance().unwrap_or(&0.0);
-                    let alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
-                    let alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
+                    let mut alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
+                    let mut alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
+                    if from_back {
+                        // The back of the material is what faces the observer
+                        std::mem::swap(&mut alpha_front, &mut alpha_back);
+                    }
                     let rho_front = 1. - tau - alpha_front;
                     let rho_back = 1. - tau - alpha_back;
                     ret.push(Glazing::new(*tau, rho_front, rho_back));
@@ -120,7 +129,7 @@ impl Glazing {
         }
 
         let i = construction.materials.iter().cloned();
-        Self::get_glazing_from_iter(i, model, construction.materials.len())
+        Self::get_glazing_from_iter(i, model, construction.materials.len(), false)
     }
 
     /// Gets the front back translucent in a construction
@@ -129,7 +138,7 @@ impl Glazing {
         model: &Model,
     ) -> Result<Vec<Glazing>, String> {
         let i = construction.materials.iter().cloned().rev();
-        Self::get_glazing_from_iter(i, model, construction.materials.len())
+        Self::get_glazing_from_iter(i, model, construction.materials.len(), true)
     }
 
     /// Gets the transmittance
-- 
2.43.0


From a10080f27013ae45693e9a066a6fb00874302131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 15/39] fix: a cavity heated from above (180 degrees) is not
 one heated from below

---
 heat/src/gas.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..8c11cb2 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -198,8 +198,6 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     const THIRTY_RAD: Float = 30. * crate::PI / 180.;
     const EPSILON_RAD: Float = 0.5 * crate::PI / 180.;
 
-    let gamma = gamma % crate::PI;
-
     if (0.0..2. * THIRTY_RAD - EPSILON_RAD).contains(&gamma) {
         // Between 0 and 60 degrees
         nu_0_60(ra, gamma, a_gi)
@@ -212,11 +210,9 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     } else if gamma < 3. * THIRTY_RAD + EPSILON_RAD {
         // 90 degrees
         nu_90(ra, a_gi)
-    } else if gamma < 6. * THIRTY_RAD {
+    } else {
         // between 90 and 180 degrees
         nu_90_180(ra, a_gi, gamma)
-    } else {
-        unreachable!("gamma is {}", gamma)
     }
 }
 
-- 
2.43.0


From f70f021fc99ae2f9f0025d909bc49eee80336bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 16/39] fix: vertical cavities with a Rayleigh number of
 exactly 5e4 do not panic

---
 heat/src/gas.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8c11cb2..6f95799 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -285,11 +285,9 @@ fn nu_90(ra: Float, a_gi: Float) -> Float {
     } else if ra < 5e4 {
         // Eq. 51
         0.028154 * ra.powf(0.4134)
-    } else if ra > 5e4 {
+    } else {
         // Eq. 50
         0.0673838 * ra.powf(1. / 3.)
-    } else {
-        unreachable!()
     };
     // Eq. 53
     let nu2 = 0.242 * (ra / a_gi).powf(0.272);
-- 
2.43.0


From 715843f7cf8547f94232b3479910197fe5698ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 17/39] fix: a negative solar irradiance at the back of a
 surface is ignored, like that of the front

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..ffdac6c 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1267,7 +1267,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From cdbaa9a8bc9ca318fa4f2bb0aab077534e725a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 18/39] fix: the back of a surface with an ambient temperature
 convects from its own temperature

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index ffdac6c..3eac4ad 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -684,7 +684,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From 71e6ff22e674ff9b1ab13ca1cdc2cdfb6d3bdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 19/39] fix: the back of an outdoor surface is windward when
 it, and not the front, faces the wind

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 3eac4ad..1088309 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -712,7 +712,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => back_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        is_windward(wind_direction, self.cos_tilt, self.normal * -1.),
                     ),
                 };
 
-- 
2.43.0


From 84c76ba212e89c118086ce2339483d9c2447b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 20/39] fix: natural convection at the front of a surface uses
 the tilt of the front, also indoors

---
 heat/src/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 1088309..893d5a1 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -606,7 +606,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -623,7 +623,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
-- 
2.43.0


From efbb2dfbb15e1bbbf24b890b10f4b731d421a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 21/39] fix: a zone that is connected to nothing warms up with
 the heat generated in it

---
 heat/src/heat_model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..aad50c1 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -713,8 +713,10 @@ impl ThermalModel {
                     a[i] / b[i] + (t_current[i] - a[i] / b[i]) * (-b[i] * future_time / c[i]).exp(),
                 );
             } else {
-                // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // A space that is disconnected from everything only gains
+                // the heat that is generated in it (i.e., it maintains its
+                // temperature if there is none)
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From 60bb234e9c388401b2df6ba7b03ddbafe6b2a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 22/39] fix: the wind direction of the weather is in radians
 already

---
 heat/src/heat_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index aad50c1..d51fcb4 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -416,7 +416,7 @@ impl SimulationModel for ThermalModel {
             // advance in time
             date.add_seconds(self.dt);
             let current_weather = weather.get_weather_data(date);
-            let wind_direction = current_weather.wind_direction.to_radians();
+            let wind_direction = current_weather.wind_direction; // already in radians
             let wind_speed = current_weather.wind_speed;
 
             let t_out = current_weather.dry_bulb_temperature;
-- 
2.43.0


From b2a1e17beda93d0da049d4b4b67823dfd37bb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:25 +0000
Subject: [PATCH 23/39] fix: the radiance of the sky is never negative

---
 weather/src/solar/perez.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..4b9a5e3 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -376,8 +376,13 @@ impl PerezSky {
 
         // Return
         Box::new(move |dir: Vector3D| -> Float {
+            // as in the normalization above, there is no negative radiance
             let sky = ret(dir);
-            sky * norm_diff_illum
+            if sky < 0.0 {
+                0.0
+            } else {
+                sky * norm_diff_illum
+            }
         })
     }
 
-- 
2.43.0


From 53cff6339540d93590bc05d02885482dc9b2fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:25 +0000
Subject: [PATCH 24/39] fix: models written in the SIMPLE language keep their
 solar options

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..3b3cf81 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From c52a940e283a23e6f815e82a55978d488f97c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:25 +0000
Subject: [PATCH 25/39] fix: braces within strings and comments do not end an
 object, and an object that never starts is an error

---
 model/src/scanner.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..d66a090 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -167,6 +167,22 @@ impl<'a> SimpleScanner<'a> {
         Ok((self.start_index, self.current_index))
     }
 
+    /// Consumes a string (quotes included), delimited by the quote that comes next
+    fn skip_string(&mut self) -> Result<(), String> {
+        let quote = self.advance();
+        loop {
+            match self.advance() {
+                Some('\\') => {
+                    self.advance();
+                }
+                Some('\n') => self.line += 1,
+                None => return Err(Self::make_error_msg("Unterminated string", self.line)),
+                c if c == quote => return Ok(()),
+                _ => {}
+            }
+        }
+    }
+
     /// Consumes an object and returns the start and end of that object.
     fn object(&mut self) -> Result<(usize, usize), String> {
         let mut levels = 0;
@@ -174,8 +190,19 @@ impl<'a> SimpleScanner<'a> {
 
         let (mut open, mut close) = ('{', '}');
 
-        while levels > 0 || !started {
+        while (levels > 0 || !started) && !self.finished {
             let next = self.peek();
+
+            // what is within strings and comments does not open or close anything
+            if next == '"' || next == '\'' {
+                self.skip_string()?;
+                continue;
+            }
+            if next == '/' && matches!(self.peek_next(), '/' | '*') {
+                self.skip_white_space()?;
+                continue;
+            }
+
             if !started && (next == ',') {
                 let errmsg = Self::make_error_msg("Malformed enum object. These should have parentheses (e.g., not 'ShelterClass::Urban' but 'ShelterClass::Urban()' )", self.line);
                 return Err(errmsg);
-- 
2.43.0


From 824c3a074acf604ebc06eb828c723691fb296b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 26/39] fix: the pixel of a ray is right in films that are not
 square, and rays going backwards have none

---
 rendering/src/camera/pinhole.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rendering/src/camera/pinhole.rs b/rendering/src/camera/pinhole.rs
index 6bc38f8..27c0940 100644
--- a/rendering/src/camera/pinhole.rs
+++ b/rendering/src/camera/pinhole.rs
@@ -63,8 +63,9 @@ impl Camera for Pinhole {
         let direction = ray.direction;
         let normal = self.view.view_direction;
         let cos = normal * direction;
-        if cos.abs() < 1e-12 {
-            // The ray does not intersect at all.... its weight is Zero
+        if cos < 1e-12 {
+            // The ray does not intersect the film, which is in front of the view
+            // point, at all.... its weight is Zero
             return ((0, 0), 0.);
         }
 
@@ -87,21 +88,22 @@ impl Camera for Pinhole {
         }
         let z = intersection_pt * self.view.view_up;
 
-        // If it is out of the FOV, return None.
-        if z.abs() > 1. || x.abs() > 1. {
-            return ((0, 0), 0.);
-        }
-
         let (width, height) = self.film.resolution;
         let xlim = 2.;
         let aspect_ratio = height as Float / width as Float;
         let ylim = aspect_ratio * xlim;
+
+        // If it is out of the FOV, return None.
+        if z.abs() > ylim / 2. || x.abs() > xlim / 2. {
+            return ((0, 0), 0.);
+        }
+
         let dx = xlim / width as Float;
         let dy = ylim / height as Float;
 
         // Else, calculate:
-        let x = (x + 1.) / dx;
-        let y = (1. - z) / dy;
+        let x = (x + xlim / 2.) / dx;
+        let y = (ylim / 2. - z) / dy;
 
         // return
         ((x.floor() as usize, y.floor() as usize), 1.)
-- 
2.43.0


From e17bf5cfbed97779e619590a310f1a7a1a8a5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 27/39] fix: images that miss pixels are refused

---
 rendering/src/image.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 50fdf10..01eca6e 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -272,13 +272,23 @@ impl ImageBuffer {
         let height = height.ok_or("no height")?;
 
         // Read body
-        let pixels = content
+        let pixels: Vec<Spectrum> = content
             .chunks_exact(4)
             .map(|x| {
                 let (r, g, b, e) = (x[0], x[1], x[2], x[3]);
                 rgbe_to_colour(r, g, b, e)
             })
             .collect();
+        if pixels.len() != width * height {
+            return Err(format!(
+                "When reading file '{}' : expecting {} pixels ({}x{})... found {}",
+                filename,
+                width * height,
+                width,
+                height,
+                pixels.len()
+            ));
+        }
 
         // return
         Ok(Self {
-- 
2.43.0


From 4b15ff3366896f1d0ae9aa2305a62ba35c29817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 28/39] fix: the density of directions towards a triangular
 light depends on the direction, not on where the coordinates start

---
 rendering/src/primitive_samplers.rs | 4 ++--
 rendering/src/triangle/mod.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 5046158..61cf157 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -56,14 +56,14 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (info.p - ray.origin).length_squared();
-    let cos_theta = ray.origin * info.normal;
+    let cos_theta = (ray.direction * info.normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle.area();
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /* END OF TRIANGLE */
diff --git a/rendering/src/triangle/mod.rs b/rendering/src/triangle/mod.rs
index f8d834b..007055f 100644
--- a/rendering/src/triangle/mod.rs
+++ b/rendering/src/triangle/mod.rs
@@ -90,14 +90,14 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (point - ray.origin).length_squared();
-    let cos_theta = ray.origin * normal;
+    let cos_theta = (ray.direction * normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle_area(t);
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /// Gets the BBox of a Triangle
-- 
2.43.0


From 7e3012f5661f213fb59640c9b99cda688a5236a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 29/39] fix: light that a dielectric reflects stays in its
 medium

---
 rendering/src/material/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rendering/src/material/mod.rs b/rendering/src/material/mod.rs
index 759b9cd..0d8fe47 100644
--- a/rendering/src/material/mod.rs
+++ b/rendering/src/material/mod.rs
@@ -160,14 +160,15 @@ impl Material {
             Self::Mirror(m) => m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags),
             Self::Dielectric(m) => {
                 let ret = m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags);
-                // if front or back?
-                // dbg!("Fxix the refraction index transition");
-                match interaction.geometry_shading.side {
-                    // Going in
-                    SurfaceSide::Front => *eta = m.refraction_index,
-                    // Going out... TODO?: create a stack of refraction indexes
-                    SurfaceSide::Back => *eta = 1.0,
-                    _ => unreachable!(),
+                // The light changes medium only if it is transmitted
+                if matches!(&ret, Some(sample) if sample.is_transmission()) {
+                    match interaction.geometry_shading.side {
+                        // Going in
+                        SurfaceSide::Front => *eta = m.refraction_index,
+                        // Going out... TODO?: create a stack of refraction indexes
+                        SurfaceSide::Back => *eta = 1.0,
+                        _ => unreachable!(),
+                    }
                 }
                 ret
             }
-- 
2.43.0


From 20c0124d760202c38609f04e634a7c9818205fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 30/39] fix: rays hit small triangles

---
 rendering/src/triangle/fallback.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rendering/src/triangle/fallback.rs b/rendering/src/triangle/fallback.rs
index 9a90b8d..7701fc5 100644
--- a/rendering/src/triangle/fallback.rs
+++ b/rendering/src/triangle/fallback.rs
@@ -24,7 +24,10 @@ pub fn baricentric_coordinates(ray: Ray3D, t: &Triangle) -> Option<(Point3D, Flo
     let h = ray.direction.cross(edge2);
     let a = edge1 * h;
 
-    if a < TINY && a > -TINY {
+    // `a` grows with the size of the triangle. Comparing it with an absolute
+    // number would make small triangles (e.g., the mesh of a small sphere) invisible.
+    const PARALLEL: Float = 1e-10;
+    if a * a <= PARALLEL * PARALLEL * edge1.length_squared() * edge2.length_squared() {
         return None; // ray is parallel
     }
     let f = 1. / a;
-- 
2.43.0


From cf6aae1147cec2ffcc596ae9cc71c22576753333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 31/39] fix: reports separate their columns when some outputs
 do not exist

---
 src/run_simulation.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..b513049 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,11 +195,7 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
@@ -293,11 +289,7 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
     let _u = out
-- 
2.43.0


From 72886dd65e9496f822c71a110c5708132180a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 32/39] fix: scripts asking for an object by number in an empty
 model get an error

---
 derive/src/object_enum.rs   | 2 +-
 derive/src/object_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/object_enum.rs b/derive/src/object_enum.rs
index 966e0d4..c4039a7 100644
--- a/derive/src/object_enum.rs
+++ b/derive/src/object_enum.rs
@@ -366,7 +366,7 @@ impl EnumObject {
                             return Err(format!(#negative_index_err, index).into())
                         }
                         if index >= len as i64 {
-                            return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                            return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                         }
                         match &new_mod.#location[index as usize]{
                             #index_match_statement
diff --git a/derive/src/object_struct.rs b/derive/src/object_struct.rs
index a1b3617..3630a34 100644
--- a/derive/src/object_struct.rs
+++ b/derive/src/object_struct.rs
@@ -630,7 +630,7 @@ impl StructObject {
                     return Err(format!(#negative_index_err, index).into())
                 }
                 if index >= len as i64 {
-                    return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                    return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                 }
                 Ok(std::sync::Arc::clone(&new_mod.#location[index as usize]))
             });
-- 
2.43.0


From ced68cd49d55e0284c6a9f7723168a5dabd3cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 33/39] fix: zenith of an overhead sun is limited to 3 degrees,
 not to acos(3 degrees)

---
 rendering/src/scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/scene.rs b/rendering/src/scene.rs
index 4290fe0..54fbf2b 100644
--- a/rendering/src/scene.rs
+++ b/rendering/src/scene.rs
@@ -167,7 +167,7 @@ impl Scene {
                     it did not allow me to create a constant of that value... so I
                     did this just in case
                 */
-                (3. * crate::PI / 180.).acos()
+                3. * crate::PI / 180.
             } else {
                 cos_zenit.acos()
             };
-- 
2.43.0


From 70683611a09c1fcbea0ecccb66c67692f4ece412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 34/39] fix: the back of a construction reflects with the back
 of its last material

---
 rendering/src/from_simple_model.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/rendering/src/from_simple_model.rs b/rendering/src/from_simple_model.rs
index a261d0f..29c2332 100644
--- a/rendering/src/from_simple_model.rs
+++ b/rendering/src/from_simple_model.rs
@@ -81,7 +81,7 @@ impl SimpleModelReader {
 
             let front_substance = model.get_material_substance(front_mat_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, true)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -93,7 +93,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(last_mat_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, false)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -129,7 +129,7 @@ impl SimpleModelReader {
             let front_material_name = &construction.materials[0];
             let front_substance = model.get_material_substance(front_material_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, true)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -140,7 +140,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(back_material_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, false)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -168,13 +168,14 @@ impl SimpleModelReader {
         scene: &mut Scene,
         substance: &Substance,
         wavelength: &Wavelengths,
+        is_front: bool,
     ) -> Option<usize> {
         let substance_name = substance.name().to_string();
         match self.get_modifier_index(&substance_name) {
             Some(i) => Some(i),
             None => {
                 // Material is not there... add, then.
-                let front_mat = Self::substance_to_material(substance, wavelength)?;
+                let front_mat = Self::substance_to_material(substance, wavelength, is_front)?;
                 Some(scene.push_material(front_mat))
             }
         }
@@ -190,18 +191,29 @@ impl SimpleModelReader {
     }
 
     /// Transformsa a Model Substance into a Material
-    fn substance_to_material(substance: &Substance, wavelength: &Wavelengths) -> Option<Material> {
+    ///
+    /// The front or back properties are used, depending on `is_front`
+    fn substance_to_material(
+        substance: &Substance,
+        wavelength: &Wavelengths,
+        is_front: bool,
+    ) -> Option<Material> {
         match substance {
             Substance::Normal(s) => {
+                let (solar_absorbtance, visible_reflectance) = if is_front {
+                    (s.front_solar_absorbtance(), s.front_visible_reflectance())
+                } else {
+                    (s.back_solar_absorbtance(), s.back_visible_reflectance())
+                };
                 let alpha = match *wavelength {
-                    Wavelengths::Solar => match s.front_solar_absorbtance() {
+                    Wavelengths::Solar => match solar_absorbtance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
                             0.7
                         }
                     },
-                    Wavelengths::Visible => match s.front_visible_reflectance() {
+                    Wavelengths::Visible => match visible_reflectance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
-- 
2.43.0


From d99f1fdd777cfbc7eb159963398e4bdf099945f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:27 +0000
Subject: [PATCH 35/39] fix: the sky at night is dark instead of a panic

---
 weather/src/solar/perez.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 4b9a5e3..363869a 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -284,7 +284,11 @@ impl PerezSky {
     ) -> Box<dyn Fn(Vector3D) -> Float + Sync> {
         // Convert local into solar time
         let day = Time::Standard(date.day_of_year());
-        let sun_position = solar.sun_position(day).unwrap();
+        let sun_position = match solar.sun_position(day) {
+            Some(pos) => pos,
+            // The sky is dark at night
+            None => return Box::new(|_| 0.0),
+        };
 
         // Convert day into solar time
         let day = solar.unwrap_solar_time(day);
-- 
2.43.0


From 225d1c28ae582b24995275d59d42a00e48c35e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:27 +0000
Subject: [PATCH 36/39] fix: updating a sky vector replaces the previous sky
 instead of adding to it

---
 weather/src/solar/perez.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 363869a..1eefb66 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -444,11 +444,13 @@ impl PerezSky {
         let diffuse_horizontal_irrad = weather_data.diffuse_horizontal_radiation;
         let direct_normal_irrad = weather_data.direct_normal_radiation;
 
-        // If it is nighttime, just fill with zeroes
+        // Forget the sky that was there before
+        for bin in 0..r.n_bins {
+            vec.set(bin, 0, 0.0)?;
+        }
+
+        // If it is nighttime, leave it filled with zeroes
         if direct_normal_irrad + diffuse_horizontal_irrad < 1e-4 {
-            for bin in 0..r.n_bins {
-                vec.set(bin, 0, 0.0)?;
-            }
             return Ok(());
         }
 
@@ -460,13 +462,8 @@ impl PerezSky {
         let sun_position = solar.sun_position(day);
         let sun_position = match sun_position {
             Some(pos) => pos,
-            None => {
-                // Vector3D::new(0., 0., -1.) // below the horizon
-                for bin in 0..r.n_bins {
-                    vec.set(bin, 0, 0.0)?;
-                }
-                return Ok(());
-            }
+            // below the horizon
+            None => return Ok(()),
         };
         let day = solar.unwrap_solar_time(day);
         let cos_zenit = sun_position.z;
-- 
2.43.0


From a7690b4824f26137489b75bb1c5a7d7adc4a5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 37/39] fix: Perez's direct radiation reads the row of the
 variation and the column of the humidity

---
 weather/src/solar/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..7021825 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -614,7 +614,7 @@ impl Solar {
         let w_bin = perez_direct_rad_w_bin(w);
         let delta_ktp_bin = perez_direct_rad_delta_kt_bin(delta_kt_p);
 
-        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, w_bin, delta_ktp_bin);
+        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, delta_ktp_bin, w_bin);
 
         x * self.disc_direct_solar(
             n,
@@ -712,7 +712,7 @@ fn perez_direct_rad_w_bin(w: Float) -> usize {
 }
 
 /// Gets the coefficients to be used in equation 5 of /// Ineichen, P., Perez, R. R., Seal, R. D., Maxwell, E. L., & Zalenka, A. J. A. T. (1992). Dynamic global-to-direct irradiance conversion models. ASHRAE transactions, 98(1), 354-369.    
-fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_kt: usize) -> Float {
+fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, delta_kt: usize, prec_water: usize) -> Float {
     const C00: [Float; 35] = [
         0.385230, 0.385230, 0.385230, 0.462880, 0.317440, 0.338390, 0.338390, 0.221270, 0.316730,
         0.503650, 0.235680, 0.235680, 0.241280, 0.157830, 0.269440, 0.830130, 0.830130, 0.171970,
@@ -968,7 +968,7 @@ fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_k
         0.518640, 0.339970, 0.520230, 0.743440, 0.592190, 0.603060, 0.316930, 0.794390,
     ];
 
-    let i = prec_water * 5 + delta_kt;
+    let i = delta_kt * 5 + prec_water;
 
     match (kt_p, zenith) {
         (0, 0) => C00[i],
-- 
2.43.0


From d6119b412870e4e9c494092f131178b856503369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 38/39] fix: clear sky transmittance of the DISC model

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 7021825..1986005 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -518,7 +518,7 @@ impl Solar {
 
         let delta_kn = a + b * (c * air_mass).exp();
 
-        let knc = 0.886 - 0.122 * air_mass + 0.0121 * (air_mass).powi(2)
+        let knc = 0.866 - 0.122 * air_mass + 0.0121 * (air_mass).powi(2)
             - 0.000653 * (air_mass).powi(3)
             + 0.000014 * air_mass.powi(4);
 
-- 
2.43.0


From e202fcd30387ffbc06c86b9003c9ac7fff68f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 39/39] fix: no global radiation means no direct radiation,
 instead of NaN

---
 weather/src/solar/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 1986005..13c6156 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -356,7 +356,7 @@ impl Solar {
             next_hour_data,
             prev_hour_data,
         );
-        if direct_normal_radiation.is_nan() && direct_normal_radiation.is_infinite() {
+        if direct_normal_radiation.is_nan() || direct_normal_radiation.is_infinite() {
             direct_normal_radiation = 0.0;
         }
 
@@ -482,8 +482,7 @@ impl Solar {
         pressure: Float,
     ) -> Float {
         let kt = self.hourly_clearness_index(n, global_normal_radiation);
-        let extra_rad = global_normal_radiation / kt; // extraterrestrial;
-                                                      // dbg!(extra_rad);
+        let extra_rad = self.normal_extraterrestrial_radiation(self.unwrap_solar_time(n));
         if kt < 0.0 {
             return 0.0;
         }
-- 
2.43.0


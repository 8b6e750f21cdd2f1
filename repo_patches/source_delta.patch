From 3cf495d2222c97146c8118d1fe8a13562dae59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 01/14] fix: LineSegment::split interpolates towards the end
 point

The split point was mirrored at the start point (start + (start - end) * t),
so neither half covered the segment.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From f271091944d62ac2c9762ca6e1b408495af3d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 02/14] fix: LineSegment::distance_to_point clamps the
 projection to the end point

A projection at or beyond the end point was measured from the start point.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..924c036 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From d38b4310a260fc74bed456c0a678e68c7d761ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 03/14] fix: CubicBezier::dd uses the squared parameter in the
 first coefficient

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..a48a941 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From d17886b1546601f873204e39f1ccce5b9410120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 04/14] fix: arclen of Bezier curves includes the first segment

The flattening started at t = 1/nsteps and left out the chord [0, 1/nsteps].
---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index a48a941..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From ee7345c1ca6db97edc834bbbbd65a38e2ecb728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 05/14] fix: distance_to_point of Bezier curves stays on the
 curve

The fine pass evaluated parameters up to half a unit left of the coarse
minimum (also below zero) and moved its own centre while searching, the
coarse pass never looked at t = 1, and a minimum at t = 0 was refined
around t = 0.5.
---
 src/bezier.rs           | 13 ++++++++-----
 src/cubic_bezier.rs     | 13 ++++++++-----
 src/quadratic_bezier.rs | 13 ++++++++-----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..5b8c6e7 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -103,14 +103,17 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // (half a coarse step to either side, but never outside of the curve)
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..4213c46 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -207,14 +207,17 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // (half a coarse step to either side, but never outside of the curve)
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..7353947 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -212,13 +212,16 @@ where
             }
         }
         // 2. fine pass 
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            // (half a coarse step to either side, but never outside of the curve)
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From b619bcf73468143ee88d22f25ee64c70ef6bf86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 06/14] fix: de Boor evaluation uses all D + 1 control points
 of the knot span

The last one was left at P::default().
---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..311098c 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -259,7 +259,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
-- 
2.43.0


From 642f9d10673b7240bc14e77e8549be81d9d4921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 07/14] fix: knot domain of half-clamped B-splines is
 [knots[D], knots[C]]

Outside of it fewer than D + 1 basis functions are supported; evaluating
there indexed the control points out of bounds and panicked.
---
 src/bspline.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 311098c..577adfd 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -368,7 +368,7 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
+        let m = self.control_points.len(); // Index of the knot at the end of the domain
 
         // Special case when t equals the last knot value
         if t == self.knots[m] {
-- 
2.43.0


From a110d39bd1aae0f23edf188a6d94ad46b94bc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 08/14] fix: knot span search of unclamped B-splines checks the
 lower knot

The search returned the first probed span that ends above t, whether or not
it contains t, and was not limited to the spans of the knot domain.
---
 src/bspline.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 577adfd..0343180 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -319,13 +319,15 @@ where
     /// Because the knot vector is non-decreasing, this function uses binary search.
     /// If no element greater than the value passed is found, the function returns None.
     fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
-        let mut first = 0usize;
+        let mut first = D;
         let mut step;
-        let mut count = self.knots.len() as isize;
+        let mut count = (self.control_points.len() - D) as isize;
         while count > 0 {
             step = count / 2;
             let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
+            if t >= self.knots[it]
+                && (t < self.knots[it + 1]
+                    || (it + 1 == self.control_points.len() && t == self.knots[it + 1]))
             {
                 return Some(it);
             }
-- 
2.43.0


From 0b32a21d23e0dc82ff15aa1fdb31b05fd771e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 09/14] fix: only clamped B-splines end in their last control
 point

eval() returned the last control point at the end of the knot domain for
every kind of knot vector.
---
 src/bspline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 0343180..05c59c5 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -243,16 +243,25 @@ where
         [(); D + 1]: Sized,
     {
         // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
+        if t == self.knots[self.control_points.len()]
+            && matches!(
+                self.knot_kind,
+                KnotVectorKind::Clamped | KnotVectorKind::ClampedEnd
+            )
+        {
             return Ok(self.control_points[self.control_points.len() - 1]);
         }
 
         let k = self.knot_span_start_for_t(t);
 
-        let k = match k {
+        let mut k = match k {
             Some(r) => r,
             None => return Err(BSplineError::KnotDomainViolation),
         };
+        // the end of the domain belongs to the last span that is not empty
+        while k > D && self.knots[k] == self.knots[k + 1] {
+            k -= 1;
+        }
 
         // Create a second array for storing intermediate results
         let mut d: [P; D + 1] = [P::default(); D + 1];
-- 
2.43.0


From cc60d52a70ce956cad70d8229439a4048c83bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 10/14] fix: BSpline::new rejects NaN knots

---
 src/bspline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 05c59c5..4578906 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -84,7 +84,8 @@ where
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
         // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        // (written such that NaN, which has no place in that order, is rejected as well)
+        } else if !knots.windows(2).all(|w| w[0] <= w[1]) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From 85f1c6d0e37d1bd1e6e98111cfe0c6072652678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 11/14] fix: BSpline::derivative drops the outer knots

With all K knots the result violated K = C + D + 1 for its C - 1 control
points and degree D - 1, and evaluated to unrelated values or errors.
---
 src/bspline.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 4578906..e6f32c8 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -473,14 +473,14 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
+    /// with the same knot vector less its first and last knot, and new control points Q0...Qn-1 derived from the
     /// original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
     /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
             new_points[i] = (self.control_points[i + 1] - self.control_points[i])
@@ -489,8 +489,13 @@ where
                 break;
             }
         }
+        // one degree less needs one knot less at either end
+        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];
+        for i in 0..new_knots.len() {
+            new_knots[i] = self.knots[i + 1];
+        }
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From 8008c59c4a1909ba322e176236c5ac462ad0a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 12/14] fix: BSpline::arclen measures the knot domain and
 nothing else

The step was not scaled to the knot domain and one step too many was taken,
which added the distance from the end of the curve to the origin.
---
 src/bspline.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index e6f32c8..7bcbd0e 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -449,20 +449,21 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
-            let t = kmin
+        let stepsize = (kmax - kmin) / P::Scalar::from(nsteps as NativeFloat);
+        for t in 0..nsteps {
+            let t = (kmin
                 + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
-                    * (kmax - kmin);
+                    * (kmax - kmin))
+                .min(kmax);
             let p1 = self.eval(t).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            let p2 = self.eval((t + stepsize).min(kmax)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From 5f182889731e4633b22780287afe91222e112e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 13/14] fix: roots of a quadratic with small leading
 coefficient do not cancel

---
 src/quadratic_bezier.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7353947..17d1537 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -183,8 +183,17 @@ where
         let delta = b * b - a * c * 4.0;
         if delta > 0.0.into() {
             let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
+            // never subtract numbers of the same sign, which cancels for small 'a'
+            // (the product of both roots is c / a)
+            if b < 0.0.into() {
+                let q = (-b + sqrt_delta) / 2.0;
+                result.push(c / q);
+                result.push(q / a);
+            } else {
+                let q = (-b - sqrt_delta) / 2.0;
+                result.push(q / a);
+                result.push(c / q);
+            }
         } else if delta.abs() < EPSILON.into() {
             result.push(-b / (a * 2.0));
         }
-- 
2.43.0


From e4357c133fd2e4eb29512cd97694a0aa62503582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 14/14] fix: the end of a clamped B-spline is evaluated as the
 limit from the left

Returning the last control point is wrong when the end knot has a
multiplicity above D+1: the last control point then has no influence.
de Boor's algorithm on the last non-empty span covers all cases.
---
 src/bspline.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 7bcbd0e..64bef76 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -243,16 +243,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()]
-            && matches!(
-                self.knot_kind,
-                KnotVectorKind::Clamped | KnotVectorKind::ClampedEnd
-            )
-        {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let mut k = match k {
-- 
2.43.0


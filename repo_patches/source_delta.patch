From b711d6be505735f698e596f26d60c9b5cf4ebc18 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:05 +0000
Subject: [PATCH 01/11] fix: EllStable keeps its off-diagonal factors in the
 rank-one update

The update stored L[i][j]*w[j] as scratch and used it both as the running
residual of L^-1 g in the factor update and in place of L^T in the back
substitution. Starting from a diagonal shape the products are all zero, so the
off-diagonal factors never left zero and the region cut away points that
satisfy the cut.
---
 src/ell_stable.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..a284384 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -62,9 +62,8 @@ impl EllStable {
         for i in 1..ndim {
             let row_start_i = i * n;
             for j in 0..i {
-                let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
-                inv_ml_g[i] -= val;
+                inv_ml_g[i] -= self.mq.at(j, i) * inv_ml_g[j];
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i]; // keep for rank-one update
             }
         }
 
@@ -93,7 +92,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
-- 
2.43.0


From 5e07e48eb39099e05aae23560c6581524f081188 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:05 +0000
Subject: [PATCH 02/11] fix: EllStable::new_with_matrix factorises a
 non-diagonal shape matrix

The matrix was stored as if it already were the D^-1 / L^T factors, so a
non-diagonal shape described a different region from the documented
{x | (x - xc)^T mq^-1 (x - xc) <= kappa}.
---
 src/ell_stable.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index a284384..6dd45be 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -19,13 +19,43 @@ impl EllStable {
         let helper = EllCalc::new(xc.len());
         EllStable {
             kappa,
-            mq,
+            mq: Self::factor_shape(&mq),
             xc,
             helper,
             tsq: 0.0,
         }
     }
 
+    /// Converts a shape matrix into the stored factors: with `mq^-1 = L D L^T`, the diagonal
+    /// holds `D^-1` and the strict upper triangle holds `L^T`.
+    fn factor_shape(mq: &Arr) -> Arr {
+        let n = mq.rows();
+        // mq = V E V^T with V unit upper triangular (V = L^-T, E = D^-1)
+        let mut v = mq.clone();
+        for j in (0..n).rev() {
+            for i in (0..=j).rev() {
+                let mut s = mq.at(i, j);
+                for k in (j + 1)..n {
+                    s -= v.at(k, k) * v.at(i, k) * v.at(j, k);
+                }
+                v.set(i, j, if i == j { s } else { s / v.at(j, j) });
+            }
+        }
+        // strict upper triangle of V^-1 = L^T
+        let mut fac = Arr::zeros(n, n);
+        for j in 0..n {
+            fac.set(j, j, v.at(j, j));
+            for i in (0..j).rev() {
+                let mut s = v.at(i, j);
+                for k in (i + 1)..j {
+                    s += v.at(i, k) * fac.at(k, j);
+                }
+                fac.set(i, j, -s);
+            }
+        }
+        fac
+    }
+
     pub fn new(val: Arr, xc: Arr) -> EllStable {
         EllStable::new_with_matrix(1.0, Arr::from_diag(&val), xc)
     }
-- 
2.43.0


From 0f5ed76d33c26f4d42990a9eeafab3b97f8247bf Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:39 +0000
Subject: [PATCH 03/11] fix: a discrete two-sided cut lying wholly beyond the
 region has no solution

With both offsets below minus the half-width the far plane misses the region,
but calc_parallel_q returned success with meaningless coefficients (even a
negative scale).
---
 src/ell_calc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..11b9c2a 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -790,7 +790,7 @@ impl EllCalc {
         beta1: f64,
         tsq: f64,
     ) -> (CutStatus, (f64, f64, f64)) {
-        if beta1 < beta0 {
+        if beta1 < beta0 || (beta1 < 0.0 && beta1 * beta1 > tsq) {
             return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
         }
 
-- 
2.43.0


From 54c3bba31426861445a16b311a3605779fefe370 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 04/11] fix: a cut without direction no longer poisons the
 region

A zero gradient with zero offset (which the bundled classifier and maximum-cut
oracles return) divided by zero and filled centre and shape with NaN. Report
it as having no effect and leave the region alone.
---
 src/ell.rs        | 3 +++
 src/ell_stable.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ell.rs b/src/ell.rs
index 8fed4ed..215386a 100644
--- a/src/ell.rs
+++ b/src/ell.rs
@@ -107,6 +107,9 @@ impl Ell {
         if status != CutStatus::Success {
             return status;
         }
+        if omega == 0.0 {
+            return CutStatus::NoEffect; // no direction to cut along
+        }
 
         let n = self.xc.len();
         let rho_over_omega = rho / omega;
diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 6dd45be..18d09d8 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -117,6 +117,9 @@ impl EllStable {
         if status != CutStatus::Success {
             return status;
         }
+        if omega == 0.0 {
+            return CutStatus::NoEffect; // no direction to cut along
+        }
 
         // calculate mq*grad = inv(L')*inv(D)*inv(L)*grad
         let mut g_t = inv_md_inv_ml_g.clone();
-- 
2.43.0


From 38914ee3fc3b2892f7c53ecfa8dd063bf9f53c2b Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 05/11] fix: EllStable survives a cut of zero strength

A discrete cut exactly at the no-effect depth is accepted with sigma = 0, which
made the factor update divide infinity by infinity.
---
 src/ell_stable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 18d09d8..8fb4013 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -135,6 +135,11 @@ impl EllStable {
             self.xc[i] -= rho_over_omega * g_t[i];
         }
 
+        self.kappa *= delta;
+        if sigma == 0.0 {
+            return status; // the factors stay as they are
+        }
+
         // Rank-one update
         let mu_val = sigma / (1.0 - sigma);
         let mut oldt = omega / mu_val;
@@ -151,7 +156,6 @@ impl EllStable {
         }
         let temp = oldt + gg_t[last_idx];
         self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
-        self.kappa *= delta;
 
         status
     }
-- 
2.43.0


From e557b24dc523789c7db053489f4467a9becd0126 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:52 +0000
Subject: [PATCH 06/11] fix: bsearch hands the narrowed bracket back to the
 caller

bsearch takes its interval as a mutable reference but only ever changed local
copies of its ends, so the caller could not learn the level that was found.
---
 src/cutting_plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..8b59588 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -461,6 +461,7 @@ where
         } else {
             lower = gamma;
         }
+        *intrvl = (lower, upper); // hand the narrowed bracket back to the caller
     }
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From f75658e5580bcd6a1eabcdf609a9682a0adab95a Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:51 +0000
Subject: [PATCH 07/11] fix: LDLTMgr::witness publishes a certificate for the
 whole matrix

---
 src/oracles/ldlt_mgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oracles/ldlt_mgr.rs b/src/oracles/ldlt_mgr.rs
index 332bb9e..cc7396a 100644
--- a/src/oracles/ldlt_mgr.rs
+++ b/src/oracles/ldlt_mgr.rs
@@ -99,6 +99,9 @@ impl LDLTMgr {
         assert!(!self.is_spd(), "witness called on SPD matrix");
         let (start, pos) = self.pos;
         let m = pos - 1;
+        for k in (0..start).chain(pos..self.ndim) {
+            self.wit[k] = 0.0; // left over from an earlier witness
+        }
         self.wit[m] = 1.0;
         for i in (start + 1..=m).rev() {
             let mut s = 0.0;
-- 
2.43.0


From 4d572e1172a724bef5d0dfc3e81b4f6497e6eeae Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:30 +0000
Subject: [PATCH 08/11] fix: conjugate gradient rejects a starting point that
 already solves the system

---
 src/conjugate_gradient.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..81884aa 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -35,6 +35,11 @@ pub fn conjugate_gradient(
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
 
+    // x0 already solves the system (also avoids a zero search direction below)
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
+
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
         let dir_dot_a_dir = direction.dot(&a_dir);
-- 
2.43.0


From 73e413400456066a4fcff3d655ea8d5878eb575b Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:57 +0000
Subject: [PATCH 09/11] fix: rank_one_update refuses a rectangular matrix
 before touching it

The stride of the update is the number of rows, so a matrix with more columns
than rows was silently corrupted and one with fewer was changed before the
update ran out of bounds.
---
 src/arr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arr.rs b/src/arr.rs
index dfe616a..efba87d 100644
--- a/src/arr.rs
+++ b/src/arr.rs
@@ -470,6 +470,7 @@ impl Arr {
         assert!(self.is_2d());
         assert!(!u.is_2d());
         let n = self.rows;
+        assert_eq!(n, self.cols);
         assert_eq!(n, u.len());
         for i in 0..n {
             let ui = u[i];
-- 
2.43.0


From 6c5b16d0c6e4e64f0120249468801529b57f5c87 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:52 +0000
Subject: [PATCH 10/11] fix: power_iteration3 rescales an underflowing vector

Only overflow was guarded against: on a matrix of spectral radius below one the
unnormalised vector underflowed to zero and the eigenvalue became 0/0.
---
 src/power_iteration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 6fdbfa9..db0f709 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -135,7 +135,8 @@ pub fn power_iteration2(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
 ///
 /// $$ x_{k+1} = A x_k, \qquad \lambda_{k+1} = \frac{x_{k+1}^T A x_{k+1}}{x_{k+1}^T x_{k+1}} $$
 ///
-/// Normalizes by $$ \|x\| $$ when values exceed $$ 10^{150} $$ to prevent overflow.
+/// Normalizes by $$ \|x\| $$ when values exceed $$ 10^{150} $$ to prevent overflow, or fall below
+/// $$ 10^{-150} $$ to prevent underflow.
 /// Converges when $$ |\lambda_{k+1} - \lambda_k| \le \text{tol} $$.
 ///
 /// This function is similar to the `power_iteration` and `power_iteration2` functions, but uses a
@@ -153,7 +154,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
         let eigenval_prev = eigenval;
         x.clone_from(&new_vec);
         dot = x.dot(x);
-        if dot >= 1e150 {
+        if !(1e-150..1e150).contains(&dot) {
             *x /= x.dot(x).sqrt();
             new_vec = a.dot_mv(x);
             eigenval = x.dot(&new_vec);
-- 
2.43.0


From 66cdd0254d32ee2795ef627c91074ac96c92d9d7 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 11/11] fix: Python ProfitOracle does not declare a point
 outside its domain optimal

---
 python_ai/ellalgo/oracles/profit_oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_ai/ellalgo/oracles/profit_oracle.py b/python_ai/ellalgo/oracles/profit_oracle.py
index c499c43..a0e45e2 100644
--- a/python_ai/ellalgo/oracles/profit_oracle.py
+++ b/python_ai/ellalgo/oracles/profit_oracle.py
@@ -132,8 +132,8 @@ class ProfitOracle(OracleOptim):
         grad = self._compute_gradient(xc)
         grad_norm = np.linalg.norm(grad)
 
-        if grad_norm < 1e-6:
-            # Near stationary point
+        if grad_norm < 1e-6 and np.isfinite(current_profit):
+            # Near stationary point (outside the domain the gradient is only nominally zero)
             return (grad, 0.0), True
 
         # Return cut for improvement
-- 
2.43.0


From 54370bfd5a129ec4222e50221183800257e40bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 01/21] fix: Newton solver retries a failed solve with a fresh
 Jacobian at most once

A recoverable convergence failure whose Jacobian was current (or whose
refresh attempt failed again) fell through the match and restarted the
outer loop, so solve() never returned.
---
 crates/nonlinear/src/newton.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..77adf28 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,12 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                // This is done only once: if the attempt with jbad = true fails as well, give up.
+                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From df4045342e4f70209a4e509b710f67e4859cbcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 02/21] hook: optional inputs without a public setter, behind
 the verif_hooks feature

---
 src/lib.rs         |  3 +++
 src/verif_hooks.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..76a5f38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,9 @@ mod impl_solve;
 mod impl_stop_test;
 mod norm_rms;
 
+#[cfg(feature = "verif_hooks")]
+mod verif_hooks;
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..03d1ab8
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,48 @@
+//! Access to optional inputs that have no public setter yet.
+//!
+//! Compiled only with the `verif_hooks` feature, for external verification tools.
+use super::*;
+
+impl<P, LS, NLS, TolC> Ida<P, LS, NLS, TolC>
+where
+    P: IdaProblem,
+    LS: linear::LSolver<P::Scalar>,
+    NLS: nonlinear::NLSolver<P>,
+    TolC: TolControl<P::Scalar>,
+{
+    /// stop time: `solve` must not go past it
+    pub fn verif_set_stop_time(&mut self, tstop: Option<P::Scalar>) {
+        self.ida_tstop = tstop;
+    }
+
+    /// first step size to attempt (0: let `solve` choose)
+    pub fn verif_set_init_step(&mut self, hin: P::Scalar) {
+        self.ida_hin = hin;
+    }
+
+    /// inverse of the largest step size allowed (0: no bound)
+    pub fn verif_set_max_step_inv(&mut self, hmax_inv: P::Scalar) {
+        self.ida_hmax_inv = hmax_inv;
+    }
+
+    /// largest method order allowed
+    pub fn verif_set_max_order(&mut self, maxord: usize) {
+        self.ida_maxord = maxord;
+    }
+
+    /// most internal steps in one call of `solve`
+    pub fn verif_set_max_num_steps(&mut self, mxstep: u64) {
+        self.ida_mxstep = mxstep;
+    }
+
+    /// differential components, and whether the others are left out of the local error tests
+    pub fn verif_set_suppress_alg(&mut self, id: &[bool], suppress: bool) {
+        self.ida_id = Array::from(id.to_vec());
+        self.ida_suppressalg = suppress;
+    }
+
+    /// required direction of each root function's zero-crossings
+    pub fn verif_set_root_direction(&mut self, rootdir: &[u8]) {
+        self.ida_rootdir = Array::from(rootdir.to_vec());
+    }
+}
-- 
2.43.0


From 4051b8e8eccee567cd5fa2ea2bd4e31148cad843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 03/21] fix: a retry of the very first step no longer rescales
 the initial values

IDAReset scales phi[1] only; the port scaled every row of phi, so that any
failed attempt of the first step replaced y0 by rr*y0.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76a5f38..51ffe7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1251,7 +1251,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From d7bfc24bcdcf13fc292de595afd3a3d361d46cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 04/21] fix: a step whose nonlinear iteration does not converge
 is retried with a smaller step

ConvergenceRecover was not recognised by the failure handler, which took it
for an unrecoverable error and gave up at once instead of retrying with h/4
up to MXNCF times.
---
 src/error.rs |  2 ++
 src/lib.rs   | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 0055934..7cb163c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    NLSConvergence,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 51ffe7f..42225b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -852,7 +852,16 @@ where
         self.nlp.ida_yp.scaled_add(self.nlp.lp.ida_cj, &self.ida_ee);
 
         // return if nonlinear solver failed */
-        retval?;
+        retval.map_err(|err| match err.downcast::<nonlinear::Error>() {
+            // The nonlinear iteration did not converge: may be recovered from with a smaller step
+            Ok(nonlinear::Error::ConvergenceRecover {}) => {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::NLSConvergence,
+                })
+            }
+            Ok(err) => failure::Error::from(err),
+            Err(err) => err,
+        })?;
 
         // If otherwise successful, check and enforce inequality constraints.
 
-- 
2.43.0


From eb25ce74ff9cf9d1507307f47074fba8d415122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 05/21] fix: get_dky evaluates the c_j recurrence over the
 documented range

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42225b6..0ef237b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -499,7 +499,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -507,7 +507,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From 2bd52cf22ebea04e46314bb7246ea7529cb3b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 06/21] fix: a stop time reached before a one-step call is
 cleared like any other

---
 src/impl_stop_test.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index e972b0f..65d6947 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -110,6 +110,7 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
+                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0


From 4a8807bd5051908e9cbe1e358cbe80108a3ae356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 07/21] fix: root functions are monitored from the first step
 on

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ef237b..ba9e1f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,7 +373,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 18eb17059224a6e97540087c5425ac02b14fa5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 08/21] fix: root info is +1 for an increasing and -1 for a
 decreasing root function

---
 src/impl_r_check.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..c43e0d4 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,7 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = -glo.signum();
                         }
                     }
                 });
@@ -567,7 +567,7 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = -glo.signum();
                     }
                 }
             });
-- 
2.43.0


From 52d3844de3f5e11c016e7c784afcd01b9c4898b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 09/21] fix: the Jacobian routine is given the current time
 instead of 0

---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..4e8b0af 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        tn: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                tn,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..a3c9d1b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,8 +167,12 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+        self.lp.setup(
+            self.ida_tn,
+            self.ida_yy.view(),
+            self.ida_yp.view(),
+            res.view(),
+        );
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From 14d682a16fa90d1d30c6af50e294f7bfe9d364f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 10/21] fix: a singular Jacobian or a failing linear solve is a
 recoverable failure of the step

---
 src/ida_ls.rs  | 11 ++++++++---
 src/ida_nls.rs | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 4e8b0af..7ac6ca9 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -235,7 +235,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +285,9 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        self.ls
+            .setup(self.mat_j.view_mut())
+            .map_err(failure::Error::from)
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
@@ -302,7 +305,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -452,6 +456,7 @@ where
         */
 
         //return(0);
+        retval.map_err(failure::Error::from)
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index a3c9d1b..6186cf9 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -1,7 +1,7 @@
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
-use super::error::IdaError;
+use super::error::{IdaError, Recoverable};
 use super::ida_ls::IdaLProblem;
 use super::linear::LSolver;
 use super::nonlinear::{Error, NLProblem, NLSolver};
@@ -167,7 +167,7 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp.setup(
+        let retval = self.lp.setup(
             self.ida_tn,
             self.ida_yy.view(),
             self.ida_yp.view(),
@@ -184,6 +184,9 @@ where
 
         //if (retval < 0) return(IDA_LSETUP_FAIL);
         //if (retval > 0) return(IDA_LSETUP_RECVR);
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSetup,
+        })?;
 
         //return(IDA_SUCCESS);
 
@@ -200,7 +203,7 @@ where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::DataMut<Elem = P::Scalar>,
     {
-        self.lp.solve(
+        let retval = self.lp.solve(
             delta.view_mut(),
             self.ida_ewt.view(),
             self.ida_yy.view(),
@@ -214,6 +217,9 @@ where
 
         //if (retval < 0) return(IDA_LSOLVE_FAIL);
         //if (retval > 0) return(IDA_LSOLVE_RECVR);
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSolve,
+        })?;
 
         Ok(())
     }
-- 
2.43.0


From 83dbafb563de32f43b710c269102f94409b3df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 11/21] fix: unusable error weights (zero tolerance for a
 component) are rejected

---
 src/impl_solve.rs |  4 ++--
 src/lib.rs        | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..b0751fd 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -86,7 +86,7 @@ where
 
             // Check inputs to IDA for correctness and consistency */
             if !self.ida_setup_done {
-                self.initial_setup();
+                self.initial_setup()?;
                 self.ida_setup_done = true;
             }
 
@@ -269,7 +269,7 @@ where
                     self.nlp.ida_ewt.view_mut(),
                 );
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+                if self.bad_error_weights() {
                     let _ier = self.get_solution(self.nlp.ida_tn);
                     *tret = self.nlp.ida_tn;
                     self.ida_tretlast = self.nlp.ida_tn;
diff --git a/src/lib.rs b/src/lib.rs
index ba9e1f7..45baf52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -537,7 +537,7 @@ where
     /// inputs and inputs to `init`/`reinit` that could not be done before.
     ///
     /// If no error is encountered, IDAInitialSetup returns IDA_SUCCESS. Otherwise, it returns an error flag and reported to the error handler function.
-    fn initial_setup(&mut self) {
+    fn initial_setup(&mut self) -> Result<(), failure::Error> {
         //booleantype conOK;
         //int ier;
 
@@ -546,6 +546,9 @@ where
             self.ida_phi.index_axis(Axis(0), 0),
             self.nlp.ida_ewt.view_mut(),
         );
+        if self.bad_error_weights() {
+            Err(IdaError::BadErrorWeightVector {})?
+        }
 
         /*
         // Check to see if y0 satisfies constraints.
@@ -568,6 +571,16 @@ where
         */
 
         //return(IDA_SUCCESS);
+        Ok(())
+    }
+
+    /// Whether some error weight is unusable: not positive, or not finite because the tolerance for
+    /// the component, `rtol * |y| + atol`, is zero.
+    fn bad_error_weights(&self) -> bool {
+        self.nlp
+            .ida_ewt
+            .iter()
+            .any(|&x| x <= P::Scalar::zero() || !x.is_finite())
     }
 
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
-- 
2.43.0


From bec63665652d139061616d89588180c1a628bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 12/21] fix: solve() to the last returned time restores the
 solution at that time

---
 src/impl_stop_test.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index 65d6947..88d0d50 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -52,6 +52,8 @@ where
             IdaTask::Normal => {
                 // Test for tout = tretlast, and for tn past tout.
                 if tout == self.ida_tretlast {
+                    // `get_solution()` may have been called for another time since
+                    self.get_solution(tout)?;
                     self.ida_tretlast = tout;
                     *tret = tout;
                     return Ok(IdaSolveStatus::Success);
-- 
2.43.0


From 71bebdfb3f121393928c531ad92d53f695634a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 13/21] fix: sign changes of root functions with tiny values
 are not lost to underflow

---
 src/impl_r_check.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index c43e0d4..529419d 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -5,6 +5,11 @@ pub(super) enum RootStatus {
     Continue,
 }
 
+/// Whether `a` and `b` are nonzero and of opposite sign (their product may underflow to zero).
+fn different_sign<T: num_traits::Float>(a: T, b: T) -> bool {
+    (a < T::zero() && b > T::zero()) || (a > T::zero() && b < T::zero())
+}
+
 impl<P, LS, NLS, TolC> Ida<P, LS, NLS, TolC>
 where
     P: IdaProblem,
@@ -365,7 +370,7 @@ where
                                 zroot = true;
                             }
                         } else {
-                            if (glo * ghi < P::Scalar::zero()) && rootdir_glo_neg {
+                            if different_sign(glo, ghi) && rootdir_glo_neg {
                                 let gfrac = (ghi / (ghi - glo)).abs();
                                 if gfrac > maxfrac {
                                     sgnchg = true;
@@ -503,7 +508,7 @@ where
                             if grout.abs() == P::Scalar::zero() && rootdir_glo_neg {
                                 zroot = true;
                             } else {
-                                if (glo * grout) < P::Scalar::zero() && rootdir_glo_neg {
+                                if different_sign(glo, grout) && rootdir_glo_neg {
                                     let gfrac = (grout / (grout - glo)).abs();
                                     if gfrac > maxfrac {
                                         sgnchg = true;
@@ -565,7 +570,7 @@ where
                     let rootdir_glo_neg =
                         <P::Scalar as NumCast>::from(rootdir).unwrap() * glo <= P::Scalar::zero();
                     if rootdir_glo_neg
-                        && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
+                        && (ghi.abs() == P::Scalar::zero() || different_sign(glo, ghi))
                     {
                         *iroots = -glo.signum();
                     }
-- 
2.43.0


From 0341ff9060afb6d9d5f8c753b71d21509e0d7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 14/21] fix: a zero ignored because of its direction does not
 hide the next root

---
 src/impl_r_check.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 529419d..6d16a88 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -237,6 +237,34 @@ where
             }
         }
 
+        self.ida_ttol = (self.nlp.ida_tn.abs() + self.ida_hh.abs())
+            * P::Scalar::epsilon()
+            * P::Scalar::hundred();
+
+        // A zero at tlo that was ignored because of its direction leaves glo = 0, which hides the
+        // next change of sign; look just past it.
+        let zero_lo = self
+            .ida_gactive
+            .iter()
+            .zip(self.ida_glo.iter())
+            .any(|(&gactive, &glo)| gactive && glo == P::Scalar::zero());
+        let tplus = self.ida_tlo + self.ida_ttol * self.ida_hh.signum();
+        if zero_lo && (self.ida_thi - tplus) * self.ida_hh > P::Scalar::zero() {
+            self.get_solution(tplus)?;
+            self.nlp.lp.problem.root(
+                tplus,
+                self.nlp.ida_yy.view(),
+                self.nlp.ida_yp.view(),
+                self.ida_ghi.view_mut(),
+            );
+            self.ida_nge += 1;
+            for (&ghi, glo) in self.ida_ghi.iter().zip(self.ida_glo.iter_mut()) {
+                if *glo == P::Scalar::zero() {
+                    *glo = ghi;
+                }
+            }
+        }
+
         // Get y and y' at thi.
         self.get_solution(self.ida_thi);
 
@@ -250,10 +278,6 @@ where
         self.ida_nge += 1;
         //if (retval != 0) return(IDA_RTFUNC_FAIL);
 
-        self.ida_ttol = (self.nlp.ida_tn.abs() + self.ida_hh.abs())
-            * P::Scalar::epsilon()
-            * P::Scalar::hundred();
-
         let ier = self.root_find()?;
 
         ndarray::Zip::from(self.ida_gactive.view_mut())
-- 
2.43.0


From fbf57420eccf3a63cc4890a49929fe6040599f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 15/21] fix: report the linear iterations that
 get_num_lin_iters promises

---
 src/ida_io.rs | 3 +--
 src/ida_ls.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ida_io.rs b/src/ida_io.rs
index 1928bcb..e176f3b 100644
--- a/src/ida_io.rs
+++ b/src/ida_io.rs
@@ -95,8 +95,7 @@ where
 
     /// returns the cumulative number of linear iterations.
     pub fn get_num_lin_iters(&self) -> usize {
-        //self.nlp.lp.nli
-        0
+        self.nlp.lp.nli
     }
 
     /// returns the cumulative number of linear convergence failures.
diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 7ac6ca9..af342c5 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -46,7 +46,7 @@ where
     /// npe = total number of precond calls
     npe: usize,
     /// nli = total number of linear iterations
-    nli: usize,
+    pub(super) nli: usize,
     /// nps = total number of psolve calls
     nps: usize,
     /// ncfl = total number of convergence failures
-- 
2.43.0


From 69524c091db40b0163c9a1bda59392be02442281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 16/21] fix: a stop time reached before a one-step call is
 cleared by solve()

---
 src/impl_solve.rs     | 10 ++++++----
 src/impl_stop_test.rs |  1 -
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index b0751fd..bff0b57 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -230,10 +230,12 @@ where
 
             let istate = self.stop_test1(tout, tret, itask);
             match istate {
-                Err(_)
-                | Ok(IdaSolveStatus::Root)
-                | Ok(IdaSolveStatus::Success)
-                | Ok(IdaSolveStatus::TStop) => {
+                Ok(IdaSolveStatus::TStop) => {
+                    // A stop time is used once
+                    self.ida_tstop = None;
+                    return istate;
+                }
+                Err(_) | Ok(IdaSolveStatus::Root) | Ok(IdaSolveStatus::Success) => {
                     return istate;
                 }
                 _ => {}
diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index 88d0d50..dedd2e5 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -112,7 +112,6 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
-                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0


From 84b9ec3c5832b681e5f49e1339077be00c701007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 17/21] fix: solve() that returns without a step restores the
 solution at the time it returns

---
 src/impl_solve.rs     | 7 ++++++-
 src/impl_stop_test.rs | 2 --
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index bff0b57..b18013c 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -235,7 +235,12 @@ where
                     self.ida_tstop = None;
                     return istate;
                 }
-                Err(_) | Ok(IdaSolveStatus::Root) | Ok(IdaSolveStatus::Success) => {
+                Ok(IdaSolveStatus::Success) => {
+                    // `get_solution()` may have been called for another time since
+                    self.get_solution(*tret)?;
+                    return istate;
+                }
+                Err(_) | Ok(IdaSolveStatus::Root) => {
                     return istate;
                 }
                 _ => {}
diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index dedd2e5..e972b0f 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -52,8 +52,6 @@ where
             IdaTask::Normal => {
                 // Test for tout = tretlast, and for tn past tout.
                 if tout == self.ida_tretlast {
-                    // `get_solution()` may have been called for another time since
-                    self.get_solution(tout)?;
                     self.ida_tretlast = tout;
                     *tret = tout;
                     return Ok(IdaSolveStatus::Success);
-- 
2.43.0


From 380630d1ab451bd0b21ee2ee9febbbe7ad53aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 18/21] fix: pivots below the normal range made the multipliers
 of the LU factorization overflow

---
 crates/linear/src/dense.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/linear/src/dense.rs b/crates/linear/src/dense.rs
index 3a34517..fecf8f1 100644
--- a/crates/linear/src/dense.rs
+++ b/crates/linear/src/dense.rs
@@ -131,9 +131,15 @@ where
 
         // Scale the elements below the diagonal in column k by 1.0 / a[k,k]. After the above swap a[k,k] holds the pivot
         // element. This scaling stores the pivot row multipliers a(i,k)/a(k,k) in a(i,k), i=k+1, ..., m-1.
-        let mult = mat_a[(k, k)].recip();
+        let a_kk = mat_a[(k, k)];
+        let mult = a_kk.recip();
         for i in (k + 1)..m {
-            mat_a[(i, k)] *= mult;
+            if mult.is_finite() {
+                mat_a[(i, k)] *= mult;
+            } else {
+                // the reciprocal of a subnormal pivot may overflow, the multipliers do not
+                mat_a[(i, k)] /= a_kk;
+            }
         }
 
         // row_i = row_i - [a(i,k)/a(k,k)] row_k, i=k+1, ..., m-1
-- 
2.43.0


From 354ee53410f541a3d7ca8c3b8edcf852e9438d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 19/21] fix: do not count an abandoned attempt as a step at
 constant step size

After a step failed for good, the next call of solve() counted the abandoned
attempt as a step taken at the same step size and order, and so did not
rescale the history: the predictor was wrong from then on.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 45baf52..50ad6e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -631,6 +631,7 @@ where
         profile_scope!(format!("step(), nst={}", self.counters.ida_nst));
 
         let saved_t = self.nlp.ida_tn;
+        let saved_ns = self.ida_ns;
 
         if self.counters.ida_nst == 0 {
             self.ida_kk = 1;
@@ -702,6 +703,12 @@ where
 
                             (err_k, err_km1, false)
                         })
+                        .map_err(|err| {
+                            // giving up; the attempt must not count as a step at constant hh if
+                            // the user calls again
+                            self.ida_ns = saved_ns;
+                            err
+                        })
                 })?;
 
             if converged {
-- 
2.43.0


From dc2d119e545a40cd5d2f1d5167d2931d823238ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 20/21] fix: restore all of psi when a step is given up

restore() recovers psi[0 .. kk] only. When the order had just been lowered,
the solution and derivative at and before tn still are of order kk + 1 and
need psi[kk] too: y' returned with the failure was wrong, and so was
get_solution afterwards.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 50ad6e6..d8f929c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -643,6 +643,8 @@ where
             self.ida_ns = 0;
         }
 
+        let saved_psi = self.ida_psi.clone();
+
         let mut ncf = 0; // local counter for convergence failures
         let mut nef = 0; // local counter for error test failures
 
@@ -707,6 +709,12 @@ where
                             // giving up; the attempt must not count as a step at constant hh if
                             // the user calls again
                             self.ida_ns = saved_ns;
+
+                            // restore() only reaches psi[0 .. kk], and the solution at tn may be
+                            // of order kk + 1
+                            self.ida_psi
+                                .slice_mut(s![self.ida_kk..])
+                                .assign(&saved_psi.slice(s![self.ida_kk..]));
                             err
                         })
                 })?;
-- 
2.43.0


From a6fa0b83e3d593ce8d0fbd349632d9654360b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 21/21] fix: start the first step again after it was given up

phi[1] holds hh*y' once the first step is attempted. When that step was
given up, the next call of solve() scaled it by hh a second time and started
from a wrong derivative.
---
 src/impl_solve.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index b18013c..ea20c91 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -329,6 +329,14 @@ where
                         error!("Error occured with get_solution: {:?}", e2.as_fail());
                     }
                 }
+                // A first step that was given up is started again by the next call, which expects y'
+                // in phi[1] and not hh*y'
+                if self.counters.ida_nst == 0 {
+                    let scale = self.ida_psi[0].recip();
+                    let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+                    phi *= scale;
+                    self.ida_psi[0] = P::Scalar::one();
+                }
                 // Forward the error
                 err
             })?;
-- 
2.43.0


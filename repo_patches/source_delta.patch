From d3ac1a8946f17c87040e880f47586a7743186936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 01/17] fix: end the Newton solve on a convergence failure with
 current Jacobian data

The match arm fell through to the next loop iteration, so a diverging problem
whose Jacobian was already fresh looped forever.
---
 crates/nonlinear/src/newton.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..1260238 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,11 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                Err(Error::ConvergenceRecover {}) if !self.jcur => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From 1515bece63ac90994a97f681e6df880b673e022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 02/17] fix: do not retry a Newton solve that failed before its
 first iteration

A recoverable failure of the residual at the initial guess was retried with the
same arguments without ever reaching the setup, so the solve looped forever.
As in SUNDIALS, a failing residual or setup now ends the attempt.
---
 crates/nonlinear/src/newton.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 1260238..e8ebbbf 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -71,6 +71,9 @@ where
         // residual function (store in delta) Setup the linear solver if necessary Preform Newton
         // iteraion
         let retval: Result<(), Error> = 'outer: loop {
+            // set once the iteration is entered: a failure before that would only repeat itself
+            let mut started = false;
+
             // compute the nonlinear residual, store in delta
             let retval = problem
                 .sys(y0, &mut self.delta)
@@ -86,6 +89,8 @@ where
                     }
                 })
                 .and_then(|_| {
+                    started = true;
+
                     // initialize counter curiter
                     self.curiter = 0;
 
@@ -143,7 +148,7 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) if !self.jcur => {
+                Err(Error::ConvergenceRecover {}) if started && !self.jcur => {
                     self.nconvfails += 1;
                     call_lsetup = true;
                     jbad = true;
-- 
2.43.0


From 50028a026f2fba3e4bbe7381a1d37ec839216e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 03/17] fix: rescale only phi[1] when the first step is retried

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..e13333d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1248,7 +1248,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From 51090db316c26fef8d86a146857f523b116b9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 04/17] fix: monitor all root functions from the start

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e13333d..c8f7ead 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 43da0aff2a4e9682745107bb4094a8b6373fcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 05/17] fix: report +1 for increasing and -1 for decreasing
 roots

---
 src/impl_r_check.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..4e3c814 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,11 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = if glo > P::Scalar::zero() {
+                                -P::Scalar::one()
+                            } else {
+                                P::Scalar::one()
+                            };
                         }
                     }
                 });
@@ -567,7 +571,11 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = if glo > P::Scalar::zero() {
+                            -P::Scalar::one()
+                        } else {
+                            P::Scalar::one()
+                        };
                     }
                 }
             });
-- 
2.43.0


From 73481bfdf4a045aa6d005b766228cde3195e76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 06/17] fix: run the get_dky recurrence up to kused-k+i

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c8f7ead..313c65d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From fcc68d71cf28edf75ba04dcb83fb29fab146a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 07/17] fix: clear tstop when it is reached in one-step mode
 without a step

---
 src/impl_solve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..507594a 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -229,6 +229,10 @@ where
             // Now test for all other stop conditions.
 
             let istate = self.stop_test1(tout, tret, itask);
+            if let Ok(IdaSolveStatus::TStop) = istate {
+                // tstop has been reached and does not apply to later calls
+                self.ida_tstop = None;
+            }
             match istate {
                 Err(_)
                 | Ok(IdaSolveStatus::Root)
-- 
2.43.0


From 472b00221a25200f39e9bc8f235b4ab53bfd78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 08/17] fix: evaluate the Jacobian at the current time

---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..5843689 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        t: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                t,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..6ec3838 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -168,7 +168,7 @@ where
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
         self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+            .setup(self.ida_tn, self.ida_yy.view(), self.ida_yp.view(), res.view());
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From 8a2f708ef3e6b2a364d057d99f806b5d6bf33010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 09/17] fix: treat a failed linear setup as a recoverable
 failure instead of panicking

---
 src/ida_ls.rs  | 5 +++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 5843689..55fbbe6 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -235,7 +235,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +285,7 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        self.ls.setup(self.mat_j.view_mut())
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 6ec3838..3cd4135 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -1,7 +1,7 @@
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
-use super::error::IdaError;
+use super::error::{IdaError, Recoverable};
 use super::ida_ls::IdaLProblem;
 use super::linear::LSolver;
 use super::nonlinear::{Error, NLProblem, NLSolver};
@@ -167,7 +167,8 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
+        let retval = self
+            .lp
             .setup(self.ida_tn, self.ida_yy.view(), self.ida_yp.view(), res.view());
 
         // update Jacobian status
@@ -180,6 +181,9 @@ where
 
         //if (retval < 0) return(IDA_LSETUP_FAIL);
         //if (retval > 0) return(IDA_LSETUP_RECVR);
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSetup,
+        })?;
 
         //return(IDA_SUCCESS);
 
-- 
2.43.0


From 445ea5e00b4ee49c12459fb7ea954a840b39f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 10/17] fix: retry the step with a smaller size when the
 nonlinear solver does not converge

---
 src/error.rs |  2 ++
 src/lib.rs   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0055934..b2e766e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    Convergence,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 313c65d..0df93f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1129,6 +1129,16 @@ where
 
         self.ida_phase = 1;
 
+        // A convergence failure of the nonlinear solver is recoverable
+        let error = match error.downcast::<nonlinear::Error>() {
+            Ok(nonlinear::Error::ConvergenceRecover {}) => IdaError::RecoverableFail {
+                rec_type: Recoverable::Convergence,
+            }
+            .into(),
+            Ok(e) => e.into(),
+            Err(e) => e,
+        };
+
         // Try and convert the error into an IdaError
         error
             .downcast::<IdaError>()
-- 
2.43.0


From a4cac816a8f834fd13866d352d89c493b5602d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 11/17] fix: leave masked-out components out of the masked norm
 whatever their value

---
 src/norm_rms.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/norm_rms.rs b/src/norm_rms.rs
index 508af92..86b72de 100644
--- a/src/norm_rms.rs
+++ b/src/norm_rms.rs
@@ -47,10 +47,10 @@ where
     B: ndarray::Data<Elem = bool>,
 {
     fn norm_wrms_masked(&self, w: &ArrayBase<S1, D>, id: &ArrayBase<B, D>) -> A {
-        let mask = id.map(|x| if *x { A::one() } else { A::zero() });
-        ((self * w * mask)
+        ((self * w)
             .iter()
-            .map(|x| x.powi(2))
+            .zip(id.iter())
+            .map(|(x, &id)| if id { x.powi(2) } else { A::zero() })
             .fold(A::zero(), |acc, x| acc + x)
             / A::from(self.len()).unwrap())
         .sqrt()
-- 
2.43.0


From 75449c7c3b6d273d42ace787783b1f27ee453a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 12/17] fix: move to the root found just beyond the last one
 instead of returning the last one forever

---
 src/impl_r_check.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 4e3c814..9ecb538 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -184,7 +184,11 @@ where
                                 return ndarray::FoldWhile::Done(false);
                             }
                             zroot = true;
-                            *iroots = P::Scalar::one();
+                            *iroots = if *glo > P::Scalar::zero() {
+                                -P::Scalar::one()
+                            } else {
+                                P::Scalar::one()
+                            };
                         } else {
                             if *iroots > P::Scalar::zero() {
                                 *glo = *ghi;
@@ -201,6 +205,17 @@ where
             }
 
             if zroot.into_inner() {
+                // The new root is at tplus, where yy and yp have just been evaluated. The components
+                // that were zero at tlo have been reported there already.
+                ndarray::Zip::from(self.ida_iroots.view_mut())
+                    .and(self.ida_ghi.view())
+                    .apply(|iroots, ghi| {
+                        if ghi.abs() != P::Scalar::zero() {
+                            *iroots = P::Scalar::zero();
+                        }
+                    });
+                self.ida_tlo = tplus;
+                self.ida_glo.assign(&self.ida_ghi);
                 return Ok(RootStatus::RootFound);
             }
         }
-- 
2.43.0


From 0a97d9871a57248b54eeb9c7a089f88bd29a726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 13/17] fix: start again from the initial derivative after a
 solve call that failed in the first step

---
 src/impl_solve.rs | 6 ++++++
 src/lib.rs        | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 507594a..b0d0d44 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -166,6 +166,7 @@ where
             // set phi[1] = hh*y'
             let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
             phi *= self.ida_hh;
+            self.ida_psi[0] = self.ida_hh;
 
             // Set the convergence test constants epsNewt and toldel
             self.ida_eps_newt = self.ida_epcon;
@@ -304,6 +305,8 @@ where
                 self.ida_tretlast = self.nlp.ida_tn;
                 if self.counters.ida_nst > 0 {
                     let _ier = self.get_solution(self.nlp.ida_tn);
+                } else {
+                    self.unscale_initial();
                 }
                 //IDAProcessError(IDA_mem, IDA_ILL_INPUT, "IDA", "IDASolve", MSG_TOO_MUCH_ACC, self.nlp.ida_tn);
                 Err(IdaError::TooMuchAccuracy {
@@ -326,6 +329,9 @@ where
                         error!("Error occured with get_solution: {:?}", e2.as_fail());
                     }
                 }
+                if self.counters.ida_nst == 0 {
+                    self.unscale_initial();
+                }
                 // Forward the error
                 err
             })?;
diff --git a/src/lib.rs b/src/lib.rs
index 0df93f4..2223951 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1262,6 +1262,14 @@ where
         phi *= self.ida_rr;
     }
 
+    /// Set phi[1] back from hh*y' to y' when solve() fails before the first step is completed, since
+    /// the next call is a first call again, which scales it.
+    fn unscale_initial(&mut self) -> () {
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi /= self.ida_psi[0];
+        self.ida_psi[0] = P::Scalar::one();
+    }
+
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
     /// polynomial at the independent variable t, and stores the results in the vectors yret and ypret.
     /// It uses the current independent variable value, tn, and the method order last used, kused.
-- 
2.43.0


From 7377a9474c461ed741b3ca2110c1f73939803d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 14/17] fix: report failures of the linear solver's solve
 instead of using what it left behind

---
 src/ida_ls.rs  | 5 +++--
 src/ida_nls.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 55fbbe6..6b20b2c 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -303,7 +303,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -452,7 +453,7 @@ where
         }
         */
 
-        //return(0);
+        retval
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 3cd4135..cec353b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -200,7 +200,7 @@ where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::DataMut<Elem = P::Scalar>,
     {
-        self.lp.solve(
+        let retval = self.lp.solve(
             delta.view_mut(),
             self.ida_ewt.view(),
             self.ida_yy.view(),
@@ -214,6 +214,7 @@ where
 
         //if (retval < 0) return(IDA_LSOLVE_FAIL);
         //if (retval > 0) return(IDA_LSOLVE_RECVR);
+        retval.map_err(|_| Error::ConvergenceRecover {})?;
 
         Ok(())
     }
-- 
2.43.0


From 384a8c17990f08fd66d24a79354c9cf11787f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 15/17] fix: keep counting root evaluations when the first step
 is asked for again

---
 src/impl_r_check.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 9ecb538..8ec08a5 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -48,7 +48,7 @@ where
             self.ida_glo.view_mut(),
         );
 
-        self.ida_nge = 1;
+        self.ida_nge += 1;
 
         let zroot = ndarray::Zip::from(self.ida_gactive.view_mut())
             .and(&self.ida_glo)
-- 
2.43.0


From f51cf7f56f70308ff4f435d5f0a0507c311c4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 16/17] fix: get_solution before the first step gives the
 initial values, not NaN

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2223951..1ef6fb9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -294,6 +294,10 @@ where
         ida_phi.index_axis_mut(Axis(0), 0).assign(&yy0);
         ida_phi.index_axis_mut(Axis(0), 1).assign(&yp0);
 
+        // phi[1] is y', not yet scaled by a step size, until the first step is taken
+        let mut ida_psi = Array::zeros(MXORDP1);
+        ida_psi[0] = P::Scalar::one();
+
         #[cfg(feature = "data_trace")]
         {
             let mut data_trace = std::fs::File::create("roberts_rs.json").unwrap();
@@ -335,7 +339,7 @@ where
             //ida_steptol = SUNRpowerR(self.ida_uround, TWOTHIRDS);
             ida_phi,
 
-            ida_psi: Array::zeros(MXORDP1),
+            ida_psi,
             ida_alpha: Array::zeros(MXORDP1),
             ida_beta: Array::zeros(MXORDP1),
             ida_sigma: Array::zeros(MXORDP1),
-- 
2.43.0


From 5fc139e4abebf6a55ecd90ca428ac71a91cbc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 17/17] fix: report error weights that are not positive and
 finite, also before the first step

A tolerance of zero for a component that starts at zero gave an infinite weight, and
negative tolerances were used for a first step; neither was reported.
---
 src/impl_solve.rs | 8 +++++++-
 src/lib.rs        | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index b0d0d44..5e4ad59 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -90,6 +90,12 @@ where
                 self.ida_setup_done = true;
             }
 
+            if !self.ewt_is_legal() {
+                Err(IdaError::IllegalInput {
+                    msg: format!("some initial ewt component is not positive."),
+                })?
+            }
+
             // On first call, check for tout - tn too small, set initial hh, check for approach to
             // tstop, and scale phi[1] by hh.
             // Also check for zeros of root function g at and near t0.
@@ -274,7 +280,7 @@ where
                     self.nlp.ida_ewt.view_mut(),
                 );
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+                if !self.ewt_is_legal() {
                     let _ier = self.get_solution(self.nlp.ida_tn);
                     *tret = self.nlp.ida_tn;
                     self.ida_tretlast = self.nlp.ida_tn;
diff --git a/src/lib.rs b/src/lib.rs
index 1ef6fb9..56a7042 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -571,6 +571,15 @@ where
         //return(IDA_SUCCESS);
     }
 
+    /// Whether all error weights are positive and finite. A weight is the reciprocal of a tolerance, so
+    /// a tolerance of zero gives an infinite one.
+    fn ewt_is_legal(&self) -> bool {
+        self.nlp
+            .ida_ewt
+            .iter()
+            .all(|&x| x > P::Scalar::zero() && x.is_finite())
+    }
+
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
     /// routines to do all the work.
     ///
-- 
2.43.0


From ac3eb066d8af920865627deeaef19af6531ddf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 01/30] fix: a KKT residual that is not a number is never a
 converged one

---
 src/csqp.cpp        | 56 ++++++++++++++++++++++++++++++++-------------
 src/csqp_proxqp.cpp | 49 ++++++++++++++++++++++++++++++++-------
 src/ddp.cpp         | 13 +++++++++++
 src/fddp.cpp        | 13 +++++++++++
 src/sqp.cpp         | 10 ++++++++
 5 files changed, 117 insertions(+), 24 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..5224cd3 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -434,21 +434,27 @@ void SolverCSQP::calc(const bool recalc) {
 
     const std::size_t nc = m->get_ng();
     constraint_norm_ +=
-        (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (m->get_g_lb() - d->g)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
     constraint_norm_ +=
-        (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (d->g - m->get_g_ub())
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
   }
 
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_T =
       problem_->get_terminalData();
   const std::size_t nc = problem_->get_terminalModel()->get_ng();
 
-  constraint_norm_ += (problem_->get_terminalModel()->get_g_lb() - d_T->g)
-                          .cwiseMax(Eigen::VectorXd::Zero(nc))
-                          .lpNorm<1>();
-  constraint_norm_ += (d_T->g - problem_->get_terminalModel()->get_g_ub())
-                          .cwiseMax(Eigen::VectorXd::Zero(nc))
-                          .lpNorm<1>();
+  constraint_norm_ +=
+      (problem_->get_terminalModel()->get_g_lb() - d_T->g)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
+  constraint_norm_ +=
+      (d_T->g - problem_->get_terminalModel()->get_g_ub())
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
 }
 
 void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
@@ -583,6 +589,7 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
 
 void SolverCSQP::checkKKTConditions() {
   KKT_ = 0.;
+  bool is_finite = true;
   const std::size_t T = problem_->get_T();
   x_grad_norm_ = 0.;
   u_grad_norm_ = 0.;
@@ -608,6 +615,8 @@ void SolverCSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     tmp_vec_u_[t].noalias() += d->Gu.transpose() * y_[t];
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    is_finite =
+        is_finite && tmp_vec_x_.allFinite() && tmp_vec_u_[t].allFinite();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
     x_grad_norm_ += dxtilde_[t].lpNorm<1>();
     u_grad_norm_ += dutilde_[t].lpNorm<1>();
@@ -622,6 +631,15 @@ void SolverCSQP::checkKKTConditions() {
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  is_finite = is_finite && tmp_vec_x_.allFinite() && fs_flat_.allFinite() &&
+              std::isfinite(constraint_norm_);
+
+  // std::max and the infinity norm drop NaNs: a residual that cannot be
+  // evaluated is not a converged one
+  if (!is_finite) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
+
   x_grad_norm_ += dxtilde_.back().lpNorm<1>();
   x_grad_norm_ = x_grad_norm_ / static_cast<double>(T + 1);
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
@@ -1392,9 +1410,13 @@ double SolverCSQP::tryStep(const double steplength) {
 
     const std::size_t nc = m->get_ng();
     constraint_norm_try_ +=
-        (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (m->get_g_lb() - d->g)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
     constraint_norm_try_ +=
-        (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (d->g - m->get_g_ub())
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
 
     if (raiseIfNaN(cost_try_)) {
       profiler_tryStep.stop();
@@ -1408,12 +1430,14 @@ double SolverCSQP::tryStep(const double steplength) {
 
   const std::size_t nc = m_ter->get_ng();
 
-  constraint_norm_try_ += (m_ter->get_g_lb() - d_ter->g)
-                              .cwiseMax(Eigen::VectorXd::Zero(nc))
-                              .lpNorm<1>();
-  constraint_norm_try_ += (d_ter->g - m_ter->get_g_ub())
-                              .cwiseMax(Eigen::VectorXd::Zero(nc))
-                              .lpNorm<1>();
+  constraint_norm_try_ +=
+      (m_ter->get_g_lb() - d_ter->g)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
+  constraint_norm_try_ +=
+      (d_ter->g - m_ter->get_g_ub())
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
 
   if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
     merit_try_ = cost_try_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..e039985 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -289,9 +289,13 @@ void SolverPROXQP::calc(const bool recalc) {
     auto lb = m->get_g_lb();
     auto ub = m->get_g_ub();
     constraint_norm_ +=
-        (lb - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (lb - d->g)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
     constraint_norm_ +=
-        (d->g - ub).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (d->g - ub)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
 
     // creating matrices
     if (t > 0) {
@@ -345,9 +349,13 @@ void SolverPROXQP::calc(const bool recalc) {
   }
 
   constraint_norm_ +=
-      (lb - d_T->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+      (lb - d_T->g)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
   constraint_norm_ +=
-      (d_T->g - ub).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+      (d_T->g - ub)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
 
   merit_ = cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
 
@@ -424,15 +432,22 @@ void SolverPROXQP::checkKKTConditions() {
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   KKT_ = 0;
+  bool is_finite = true;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
     fs_flat_.segment(t * ndx, ndx) = fs_[t + 1];
+    is_finite = is_finite && (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+                              d->Gu.transpose() * y_[t])
+                                 .allFinite();
     if (t == 0) {
       KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
                              d->Gu.transpose() * y_[t])
                                 .lpNorm<Eigen::Infinity>());
       continue;
     }
+    is_finite = is_finite && (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
+                              lag_mul_[t] + d->Gx.transpose() * y_[t])
+                                 .allFinite();
     KKT_ = std::max(KKT_, (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
                            lag_mul_[t] + d->Gx.transpose() * y_[t])
                               .lpNorm<Eigen::Infinity>());
@@ -448,6 +463,16 @@ void SolverPROXQP::checkKKTConditions() {
 
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  is_finite = is_finite &&
+              (d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back())
+                  .allFinite() &&
+              fs_flat_.allFinite() && std::isfinite(constraint_norm_);
+
+  // std::max and the infinity norm drop NaNs: a residual that cannot be
+  // evaluated is not a converged one
+  if (!is_finite) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverPROXQP::tryStep(const double steplength) {
@@ -497,9 +522,13 @@ double SolverPROXQP::tryStep(const double steplength) {
     auto lb = m->get_g_lb();
     auto ub = m->get_g_ub();
     constraint_norm_try_ +=
-        (lb - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (lb - d->g)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
     constraint_norm_try_ +=
-        (d->g - ub).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+        (d->g - ub)
+            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+            .lpNorm<1>();
 
     if (raiseIfNaN(cost_try_)) {
       STOP_PROFILER("SolverPROXQP::tryStep");
@@ -519,9 +548,13 @@ double SolverPROXQP::tryStep(const double steplength) {
   auto ub = m_ter->get_g_ub();
 
   constraint_norm_try_ +=
-      (lb - d_ter->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+      (lb - d_ter->g)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
   constraint_norm_try_ +=
-      (d_ter->g - ub).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+      (d_ter->g - ub)
+          .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+          .lpNorm<1>();
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..513f0d9 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -176,6 +176,7 @@ double SolverDDP::tryStep(const double steplength) {
 
 void SolverDDP::checkKKTConditions() {
   KKT_ = 0.;
+  bool is_finite = true;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -187,6 +188,10 @@ void SolverDDP::checkKKTConditions() {
                         .lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
                               .lpNorm<Eigen::Infinity>());
+    is_finite = is_finite &&
+                (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
+                    .allFinite() &&
+                (d->Lu + d->Fu.transpose() * lag_mul_[t + 1]).allFinite();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -195,6 +200,14 @@ void SolverDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  is_finite = is_finite && (d_ter->Lx - lag_mul_.back()).allFinite() &&
+              fs_flat_.allFinite();
+
+  // std::max and the infinity norm drop NaNs: a residual that cannot be
+  // evaluated is not a converged one
+  if (!is_finite) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverDDP::stoppingCriteria() {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0f7f542..5783667 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -205,6 +205,7 @@ void SolverFDDP::computeDirection(const bool recalcDiff) {
 
 void SolverFDDP::checkKKTConditions() {
   KKT_ = 0.;
+  bool is_finite = true;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -216,6 +217,10 @@ void SolverFDDP::checkKKTConditions() {
                         .lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
                               .lpNorm<Eigen::Infinity>());
+    is_finite = is_finite &&
+                (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
+                    .allFinite() &&
+                (d->Lu + d->Fu.transpose() * lag_mul_[t + 1]).allFinite();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -224,6 +229,14 @@ void SolverFDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  is_finite = is_finite && (d_ter->Lx - lag_mul_.back()).allFinite() &&
+              fs_flat_.allFinite();
+
+  // std::max and the infinity norm drop NaNs: a residual that cannot be
+  // evaluated is not a converged one
+  if (!is_finite) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..c4d5bd0 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -243,6 +243,7 @@ void SolverSQP::computeDirection(const bool recalcDiff) {
 
 void SolverSQP::checkKKTConditions() {
   KKT_ = 0.;
+  bool is_finite = true;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -256,6 +257,8 @@ void SolverSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    is_finite =
+        is_finite && tmp_vec_x_.allFinite() && tmp_vec_u_[t].allFinite();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -265,6 +268,13 @@ void SolverSQP::checkKKTConditions() {
   tmp_vec_x_ -= lag_mul_.back();
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  is_finite = is_finite && tmp_vec_x_.allFinite() && fs_flat_.allFinite();
+
+  // std::max and the infinity norm drop NaNs: a residual that cannot be
+  // evaluated is not a converged one
+  if (!is_finite) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 void SolverSQP::forwardPass(const double stepLength) {
-- 
2.43.0


From f5c4cff975e5fa0576a0c6a402d65ea28e6c6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 02/30] fix: reject a trial step whose gap or constraint
 violation is not finite

---
 src/csqp.cpp        | 5 +++--
 src/csqp_proxqp.cpp | 5 +++--
 src/sqp.cpp         | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 5224cd3..9d9376b 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1418,7 +1418,8 @@ double SolverCSQP::tryStep(const double steplength) {
             .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
             .lpNorm<1>();
 
-    if (raiseIfNaN(cost_try_)) {
+    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+        raiseIfNaN(constraint_norm_try_)) {
       profiler_tryStep.stop();
       throw_pretty("step_error");
     }
@@ -1448,7 +1449,7 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(constraint_norm_try_)) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index e039985..fc54183 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -530,7 +530,8 @@ double SolverPROXQP::tryStep(const double steplength) {
             .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
             .lpNorm<1>();
 
-    if (raiseIfNaN(cost_try_)) {
+    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+        raiseIfNaN(constraint_norm_try_)) {
       STOP_PROFILER("SolverPROXQP::tryStep");
       throw_pretty("step_error");
     }
@@ -559,7 +560,7 @@ double SolverPROXQP::tryStep(const double steplength) {
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(constraint_norm_try_)) {
     STOP_PROFILER("SolverPROXQP::tryStep");
     throw_pretty("step_error");
   }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index c4d5bd0..e4ca22b 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -349,7 +349,7 @@ double SolverSQP::tryStep(const double steplength) {
       gap_norm_try_ += fs_try_[t - 1].lpNorm<1>();
     }
 
-    if (raiseIfNaN(cost_try_)) {
+    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
       STOP_PROFILER("SolverSQP::tryStep");
       throw_pretty("step_error");
     }
@@ -373,7 +373,7 @@ double SolverSQP::tryStep(const double steplength) {
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
     STOP_PROFILER("SolverSQP::tryStep");
     throw_pretty("step_error");
   }
-- 
2.43.0


From b62c6872bc1bf04138cac073c7e0d407bde2f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 03/30] fix: do not go on with incomplete derivatives after a
 model threw

---
 src/csqp_proxqp.cpp | 2 +-
 src/ddp.cpp         | 2 +-
 src/fddp.cpp        | 2 +-
 src/sqp.cpp         | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index fc54183..bc5e0cb 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -175,7 +175,7 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // The derivatives may be incomplete: compute them again
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 513f0d9..77ef87f 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -86,7 +86,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // The derivatives may be incomplete: compute them again
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 5783667..3b749c5 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -80,7 +80,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // The derivatives may be incomplete: compute them again
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/sqp.cpp b/src/sqp.cpp
index e4ca22b..c03853d 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -104,7 +104,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // The derivatives may be incomplete: compute them again
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -190,7 +190,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // The derivatives may be incomplete: compute them again
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
-- 
2.43.0


From 26b0cce4d057936f980dbad453e4733103ab6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 04/30] fix: SQP evaluates the current iterate, not a rejected
 trial, after a failed line search

---
 src/sqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index c03853d..7f6abab 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -224,6 +224,10 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverSQP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverSQP::computeDirection");
   if (recalcDiff) {
+    if (iter_ > 0) {
+      // The data belong to the last trial, which may have been rejected
+      problem_->calc(xs_, us_);
+    }
     cost_ = calcDiff();
   }
   gap_norm_ = 0;
-- 
2.43.0


From 624d51bdd458e351d0a1fd7eddc595a3b08056e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 05/30] fix: increase a regularization of zero, on which
 retries went round for ever

---
 src/ddp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 77ef87f..97cb99e 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -442,7 +442,12 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {
+    // No factor increases a zero regularization
+    preg_ = std::max(reg_min_, 1e-9);
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 15e3bdb02e1300df4328e0670f1f4b3eaeb2193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 06/30] fix: CSQP stores the accepted step length, which drives
 the regularization

---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 9d9376b..a8beefc 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double alpha : alphas_) {
+      steplength_ = alpha;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
-- 
2.43.0


From 692c345732d3372abe005511253823460913475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 07/30] fix: a changed filter size takes effect on the filter's
 memory

---
 include/mim_solvers/csqp.hpp        | 3 +++
 include/mim_solvers/csqp_proxqp.hpp | 3 +++
 include/mim_solvers/fddp.hpp        | 2 ++
 include/mim_solvers/sqp.hpp         | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..ff51e6f 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,8 +230,11 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..f00abc0 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,8 +167,11 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..267671c 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,7 +136,9 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
   double get_gap_norm() const { return gap_norm_; };
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..0102744 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,7 +142,9 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
-- 
2.43.0


From ea29d6cd539914d36dcd79b8f4fab34f8719a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 08/30] fix: CSQP reports the number of QP iterations it
 executed

---
 src/csqp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index a8beefc..656f6f6 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -519,6 +519,9 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
     }
   }
 
+  // The counter is one too far when the loop ran out of iterations
+  qp_iters_ = std::min(qp_iters_, max_qp_iters_);
+
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
 }
-- 
2.43.0


From b4af20c0713e6d2d748ef34d5fd5ab277deccb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 09/30] fix: DDP and FDDP no longer pass for an SQP solver in
 callbacks

---
 src/ddp.cpp             |  2 +-
 src/fddp.cpp            |  2 +-
 src/utils/callbacks.cpp | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 97cb99e..dbf96bc 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -146,7 +146,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     const std::size_t n_callbacks = callbacks_.size();
     for (std::size_t c = 0; c < n_callbacks; ++c) {
       mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+      callback(*this, "DDP");
     }
 
     // if (was_feasible_ && stop_ < th_stop_) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 3b749c5..d7e33d8 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -177,7 +177,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     const std::size_t n_callbacks = callbacks_.size();
     for (std::size_t c = 0; c < n_callbacks; ++c) {
       mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+      callback(*this, "FDDP");
     }
 
     // std::cout << "KKT = " << KKT_ << std::endl;
diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 07af0b2..9664777 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -12,6 +12,8 @@
 #include <crocoddyl/core/utils/exception.hpp>
 
 #include "mim_solvers/csqp.hpp"
+#include "mim_solvers/ddp.hpp"
+#include "mim_solvers/fddp.hpp"
 #include "mim_solvers/sqp.hpp"
 
 namespace mim_solvers {
@@ -66,6 +68,10 @@ void CallbackVerbose::update_header(const std::string solver_type) {
     header_ += center_string("||gaps||", columnwidth) + separator_;
     header_ += center_string("step", columnwidth) + separator_;
     header_ += center_string("KKT criteria", columnwidth) + separator_;
+  } else if (solver_type == "DDP" || solver_type == "FDDP") {
+    header_ += center_string("cost", columnwidth) + separator_;
+    header_ += center_string("step", columnwidth) + separator_;
+    header_ += center_string("KKT criteria", columnwidth) + separator_;
   } else {
     throw_pretty("The solver type is not supported.");
   }
@@ -160,6 +166,16 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                 << solver_cast.get_KKT() << separator_ << separator_
                 << separator_short_;  // KKT criteria
     }
+  } else if (solver_type == "DDP" || solver_type == "FDDP") {
+    const double KKT = solver_type == "DDP"
+                           ? static_cast<SolverDDP&>(solver).get_KKT()
+                           : static_cast<SolverFDDP&>(solver).get_KKT();
+    std::cout << std::scientific << std::setprecision(precision_)
+              << solver.get_cost() << separator_;  // cost
+    std::cout << std::fixed << std::setprecision(precision_)
+              << solver.get_steplength() << separator_;  // step
+    std::cout << std::scientific << std::setprecision(precision_) << KKT
+              << separator_;  // KKT criteria
   }
 
   std::cout << std::endl;
-- 
2.43.0


From 7a34254f6611b7e565dce79cfffb4a154ce97202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 10/30] fix: CSQP never warm starts a QP with numbers that are
 not finite

---
 src/csqp.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 656f6f6..9ef2384 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -178,18 +178,28 @@ void SolverCSQP::reset_params() {
     z_prev_[t].setZero();
     z_relaxed_[t].setZero();
 
-    if (reset_y_) {
+    // A warm start that is not finite would spoil every later solve
+    if (reset_y_ || !y_[t].allFinite()) {
       y_[t].setZero();
     }
+    if (!dx_[t].allFinite()) {
+      dx_[t].setZero();
+    }
+    if (!du_[t].allFinite()) {
+      du_[t].setZero();
+    }
   }
 
   z_.back().setZero();
   z_prev_.back().setZero();
   z_relaxed_.back().setZero();
 
-  if (reset_y_) {
+  if (reset_y_ || !y_.back().allFinite()) {
     y_.back().setZero();
   }
+  if (!dx_.back().allFinite()) {
+    dx_.back().setZero();
+  }
 }
 
 SolverCSQP::~SolverCSQP() {}
-- 
2.43.0


From 4619f00e66a7989f2820aa17b730350c5016ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 11/30] fix: resize the constrained and SQP solvers' data when
 the problem's nodes change

---
 include/mim_solvers/csqp.hpp        |  5 ++++
 include/mim_solvers/csqp_proxqp.hpp |  5 ++++
 include/mim_solvers/sqp.hpp         |  5 ++++
 src/csqp.cpp                        | 35 ++++++++++++++++++++++++++++
 src/csqp_proxqp.cpp                 | 36 ++++++++++++++++++++++++++++-
 src/sqp.cpp                         | 15 ++++++++++++
 6 files changed, 100 insertions(+), 1 deletion(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index ff51e6f..9eed4b9 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -115,6 +115,11 @@ class SolverCSQP : public SolverDDP {
 
   virtual double tryStep(const double stepLength);
 
+  /**
+   * @brief Resize the solver's data after the problem's nodes have changed
+   */
+  virtual void resizeData();
+
   virtual void calc(const bool recalc = true);
 
   virtual void reset_params();
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index f00abc0..1147033 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -106,6 +106,11 @@ class SolverPROXQP : public SolverDDP {
 
   virtual double tryStep(const double stepLength);
 
+  /**
+   * @brief Resize the solver's data after the problem's nodes have changed
+   */
+  virtual void resizeData();
+
   virtual void calc(const bool recalc = true);
 
   // virtual void set_constraints(const
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 0102744..651afed 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -108,6 +108,11 @@ class SolverSQP : public SolverDDP {
 
   virtual double tryStep(const double stepLength);
 
+  /**
+   * @brief Resize the solver's data after the problem's nodes have changed
+   */
+  virtual void resizeData();
+
   /**
    * @brief Compute the KKT conditions residual
    */
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 9ef2384..0e453a6 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -204,6 +204,41 @@ void SolverCSQP::reset_params() {
 
 SolverCSQP::~SolverCSQP() {}
 
+void SolverCSQP::resizeData() {
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::size_t ndx = problem_->get_ndx();
+  const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>>& models =
+      problem_->get_runningModels();
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    const std::size_t nu = t < T ? models[t]->get_nu() : 0;
+    const std::size_t nc =
+        t < T ? models[t]->get_ng() : problem_->get_terminalModel()->get_ng();
+
+    if (t < T && static_cast<std::size_t>(du_[t].size()) != nu) {
+      us_try_[t].setZero(nu);
+      du_[t].setZero(nu);
+      dutilde_[t].setZero(nu);
+      tmp_vec_u_[t].setZero(nu);
+    }
+    if (static_cast<std::size_t>(y_[t].size()) != nc) {
+      z_[t].setZero(nc);
+      z_relaxed_[t].setZero(nc);
+      z_prev_[t].setZero(nc);
+      y_[t].setZero(nc);
+      tmp_Cdx_Cdu_[t].setZero(nc);
+      tmp_dual_cwise_[t].setZero(nc);
+      rho_vec_[t].setZero(nc);
+      inv_rho_vec_[t].setZero(nc);
+    }
+    tmp_rhoGx_mat_[t].resize(nc, ndx);
+    if (t < T) {
+      tmp_rhoGu_mat_[t].resize(nc, nu);
+    }
+  }
+}
+
 bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::vector<Eigen::VectorXd>& init_us,
                        const std::size_t maxiter, const bool /*is_feasible*/,
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index bc5e0cb..49fd346 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -142,6 +142,40 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
 SolverPROXQP::~SolverPROXQP() {}
 
+void SolverPROXQP::resizeData() {
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
+      problem_->get_runningModels();
+  n_vars = n_eq;
+  n_in = 0;
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    const std::size_t nu = t < T ? models[t]->get_nu() : 0;
+    const std::size_t nc =
+        t < T ? models[t]->get_ng() : problem_->get_terminalModel()->get_ng();
+    if (t < T && static_cast<std::size_t>(du_[t].size()) != nu) {
+      us_try_[t].setZero(nu);
+      du_[t].setZero(nu);
+    }
+    if (static_cast<std::size_t>(y_[t].size()) != nc) {
+      y_[t].setZero(nc);
+    }
+    n_vars += static_cast<int>(nu);
+    n_in += static_cast<int>(nc);
+  }
+
+  P_.setZero(n_vars, n_vars);
+  q_.setZero(n_vars);
+  A_.setZero(n_eq, n_vars);
+  C_.setZero(n_in, n_vars);
+  l_.setZero(n_in);
+  u_.setZero(n_in);
+  Psp_.resize(n_vars, n_vars);
+  Asp_.resize(n_eq, n_vars);
+  Csp_.resize(n_in, n_vars);
+}
+
 bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                          const std::vector<Eigen::VectorXd>& init_us,
                          const std::size_t maxiter, const bool is_feasible,
@@ -312,7 +346,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 7f6abab..2be86d8 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -72,6 +72,21 @@ SolverSQP::SolverSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
 SolverSQP::~SolverSQP() {}
 
+void SolverSQP::resizeData() {
+  SolverDDP::resizeData();
+
+  const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract> >& models =
+      problem_->get_runningModels();
+  for (std::size_t t = 0; t < problem_->get_T(); ++t) {
+    const std::size_t nu = models[t]->get_nu();
+    if (static_cast<std::size_t>(du_[t].size()) != nu) {
+      us_try_[t].setZero(nu);
+      du_[t].setZero(nu);
+      tmp_vec_u_[t].setZero(nu);
+    }
+  }
+}
+
 bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
-- 
2.43.0


From 8dc8891fff93411c97d42531a5d01f45138afda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 12/30] fix: CSQP handles a trial that throws in a worker
 thread instead of terminating

---
 src/csqp.cpp | 69 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e453a6..c3eca0d 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -12,6 +12,7 @@
 
 #include <crocoddyl/core/solver-base.hpp>
 #include <crocoddyl/core/utils/exception.hpp>
+#include <exception>
 #include <iomanip>
 #include <iostream>
 
@@ -1445,34 +1446,55 @@ double SolverCSQP::tryStep(const double steplength) {
                                 xs_try_.back());
 
 #ifdef CROCODDYL_WITH_MULTITHREADING
+  // An exception may not leave a parallel region: keep the one of the first
+  // node until its end
+  std::exception_ptr error;
+  std::size_t error_node = T;
 #pragma omp parallel for num_threads(problem_->get_nthreads()) \
     reduction(+ : cost_try_, gap_norm_try_, constraint_norm_try_)
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    const std::shared_ptr<crocoddyl::ActionModelAbstract>& m = models[t];
-    const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
-
-    m->calc(d, xs_try_[t], us_try_[t]);
-    cost_try_ += d->cost;
-    m->get_state()->diff(xs_try_[t + 1], d->xnext, fs_try_[t + 1]);
-    gap_norm_try_ += fs_try_[t + 1].lpNorm<1>();
-
-    const std::size_t nc = m->get_ng();
-    constraint_norm_try_ +=
-        (m->get_g_lb() - d->g)
-            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
-            .lpNorm<1>();
-    constraint_norm_try_ +=
-        (d->g - m->get_g_ub())
-            .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
-            .lpNorm<1>();
-
-    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
-        raiseIfNaN(constraint_norm_try_)) {
-      profiler_tryStep.stop();
-      throw_pretty("step_error");
+#ifdef CROCODDYL_WITH_MULTITHREADING
+    try {
+#endif  // CROCODDYL_WITH_MULTITHREADING
+      const std::shared_ptr<crocoddyl::ActionModelAbstract>& m = models[t];
+      const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
+
+      m->calc(d, xs_try_[t], us_try_[t]);
+      cost_try_ += d->cost;
+      m->get_state()->diff(xs_try_[t + 1], d->xnext, fs_try_[t + 1]);
+      gap_norm_try_ += fs_try_[t + 1].lpNorm<1>();
+
+      const std::size_t nc = m->get_ng();
+      constraint_norm_try_ +=
+          (m->get_g_lb() - d->g)
+              .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+              .lpNorm<1>();
+      constraint_norm_try_ +=
+          (d->g - m->get_g_ub())
+              .cwiseMax<Eigen::PropagateNaN>(Eigen::VectorXd::Zero(nc))
+              .lpNorm<1>();
+
+      if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+          raiseIfNaN(constraint_norm_try_)) {
+        profiler_tryStep.stop();
+        throw_pretty("step_error");
+      }
+#ifdef CROCODDYL_WITH_MULTITHREADING
+    } catch (...) {
+#pragma omp critical(mim_solvers_csqp_try_step)
+      if (t < error_node) {
+        error = std::current_exception();
+        error_node = t;
+      }
     }
+#endif  // CROCODDYL_WITH_MULTITHREADING
   }
+#ifdef CROCODDYL_WITH_MULTITHREADING
+  if (error) {
+    std::rethrow_exception(error);
+  }
+#endif  // CROCODDYL_WITH_MULTITHREADING
 
   // Terminal state update
   m_ter->calc(d_ter, xs_try_.back());
@@ -1498,7 +1520,8 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_) || raiseIfNaN(constraint_norm_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
-- 
2.43.0


From 61578808c749f216ca630980846ff0234417fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 13/30] fix: measure CSQP's time budget with a monotonic clock

---
 src/csqp.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index c3eca0d..529192a 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -10,6 +10,7 @@
 #include <omp.h>
 #endif  // CROCODDYL_WITH_MULTITHREADING
 
+#include <chrono>
 #include <crocoddyl/core/solver-base.hpp>
 #include <crocoddyl/core/utils/exception.hpp>
 #include <exception>
@@ -22,6 +23,17 @@ using namespace crocoddyl;
 
 namespace mim_solvers {
 
+namespace {
+
+// Time in seconds that, unlike the profiler's, no wall-clock change affects
+double monotonic_time() {
+  return std::chrono::duration<double>(
+             std::chrono::steady_clock::now().time_since_epoch())
+      .count();
+}
+
+}  // namespace
+
 SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     : SolverDDP(problem) {
   const std::size_t T = this->problem_->get_T();
@@ -246,7 +258,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const double reginit) {
   START_PROFILER("SolverCSQP::solve");
 
-  start_time_ = crocoddyl::getProfiler().take_time();
+  start_time_ = monotonic_time();
 
   if (problem_->is_updated()) {
     resizeData();
@@ -282,7 +294,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   // Main SQP loop
   max_solve_time_reached_ = false;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    if (crocoddyl::getProfiler().take_time() - start_time_ >= max_solve_time_) {
+    if (monotonic_time() - start_time_ >= max_solve_time_) {
       max_solve_time_reached_ = true;
       break;
     }
@@ -521,7 +533,7 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
   }
 
   for (qp_iters_ = 1; qp_iters_ < max_qp_iters_ + 1; ++qp_iters_) {
-    if (crocoddyl::getProfiler().take_time() - start_time_ >= max_solve_time_) {
+    if (monotonic_time() - start_time_ >= max_solve_time_) {
       // Reduce number of QP iterations, to match real number of executed loops
       qp_iters_--;
       max_solve_time_reached_ = true;
-- 
2.43.0


From 5b2accf7a07b66b176aa5ff8770d34f0fec49ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 14/30] fix: CSQP's last KKT iteration honours the time budget

---
 src/csqp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 529192a..c8a18a8 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -424,6 +424,11 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     }
   }
 
+  if (extra_iteration_for_last_kkt_ &&
+      monotonic_time() - start_time_ >= max_solve_time_) {
+    max_solve_time_reached_ = true;
+  }
+
   // If reached max iter and timeout not reached, still compute KKT residual
   if (extra_iteration_for_last_kkt_ && !max_solve_time_reached_) {
     // Compute gradients
@@ -448,6 +453,10 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         break;
       }
     }
+    if (qp_iters_ == 0) {
+      STOP_PROFILER("SolverCSQP::solve");
+      return false;
+    }
 
     // Check KKT criteria
     checkKKTConditions();
-- 
2.43.0


From 685310f735b397bc1ef82efd692b14e5896c43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 15/30] fix: SolverPROXQP checks the KKT conditions with the
 multipliers it returns

---
 src/csqp_proxqp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 49fd346..7f19aae 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -404,7 +404,6 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   if (recalcDiff) {
     calc(recalcDiff);
   }
-  checkKKTConditions();
 
   // proxsuite::proxqp::dense::QP<double> qp_(n_vars, n_eq, n_in);
   // qp_.init(P_, q_, A_, b_, C_, l_, u_);
@@ -457,6 +456,9 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   int nc = problem_->get_terminalModel()->get_ng();
   y_.back() = qp_.results.z.segment(nin_count, nc);
 
+  // The residual of the multipliers that are returned, not of the previous ones
+  checkKKTConditions();
+
   STOP_PROFILER("SolverPROXQP::computeDirection");
 }
 
-- 
2.43.0


From 4ed8745f41b0a60c5ada5d8a40be62e5b5f17b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 16/30] fix: SolverPROXQP keeps the cost where every solver's
 cost is read

---
 include/mim_solvers/csqp_proxqp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 1147033..5fc9351 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -227,7 +227,6 @@ class SolverPROXQP : public SolverDDP {
   double constraint_norm_ = 0;  //!< 1 norm of constraint violation
   double constraint_norm_try_ = 0;  //!< 1 norm of constraint violation try
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
-  double cost_ = 0.0;               //!< cost function
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
   double termination_tol_ = 1e-8;   //!< Termination tolerance
-- 
2.43.0


From 1a1d1603156ebb57b9cd3f26a816d7e842e6831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 17/30] fix: a resize missed or interrupted is made up for by
 the next solve

---
 src/csqp.cpp        | 39 +++++++++++++++++++++------------------
 src/csqp_proxqp.cpp | 21 ++++++++++++---------
 src/ddp.cpp         |  5 ++---
 src/fddp.cpp        |  5 ++---
 src/sqp.cpp         | 19 +++++++++++--------
 5 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index c8a18a8..5172777 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -220,6 +220,12 @@ SolverCSQP::~SolverCSQP() {}
 void SolverCSQP::resizeData() {
   SolverDDP::resizeData();
 
+  // What has the right size keeps its value
+  const auto fit = [](Eigen::VectorXd& v, const std::size_t n) {
+    if (static_cast<std::size_t>(v.size()) != n) {
+      v.setZero(n);
+    }
+  };
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>>& models =
@@ -229,22 +235,20 @@ void SolverCSQP::resizeData() {
     const std::size_t nc =
         t < T ? models[t]->get_ng() : problem_->get_terminalModel()->get_ng();
 
-    if (t < T && static_cast<std::size_t>(du_[t].size()) != nu) {
-      us_try_[t].setZero(nu);
-      du_[t].setZero(nu);
-      dutilde_[t].setZero(nu);
-      tmp_vec_u_[t].setZero(nu);
-    }
-    if (static_cast<std::size_t>(y_[t].size()) != nc) {
-      z_[t].setZero(nc);
-      z_relaxed_[t].setZero(nc);
-      z_prev_[t].setZero(nc);
-      y_[t].setZero(nc);
-      tmp_Cdx_Cdu_[t].setZero(nc);
-      tmp_dual_cwise_[t].setZero(nc);
-      rho_vec_[t].setZero(nc);
-      inv_rho_vec_[t].setZero(nc);
+    if (t < T) {
+      fit(us_try_[t], nu);
+      fit(du_[t], nu);
+      fit(dutilde_[t], nu);
+      fit(tmp_vec_u_[t], nu);
     }
+    fit(z_[t], nc);
+    fit(z_relaxed_[t], nc);
+    fit(z_prev_[t], nc);
+    fit(y_[t], nc);
+    fit(tmp_Cdx_Cdu_[t], nc);
+    fit(tmp_dual_cwise_[t], nc);
+    fit(rho_vec_[t], nc);
+    fit(inv_rho_vec_[t], nc);
     tmp_rhoGx_mat_[t].resize(nc, ndx);
     if (t < T) {
       tmp_rhoGu_mat_[t].resize(nc, nu);
@@ -260,9 +264,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
   start_time_ = monotonic_time();
 
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // Whatever is_updated() says: the first solver that reads the flag clears it
+  resizeData();
   setCandidate(init_xs, init_us, false);
   // Otherwise xs[0] is overwritten by init_xs inside setCandidate()
   xs_[0] = problem_->get_x0();
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 7f19aae..b044cb8 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -145,6 +145,12 @@ SolverPROXQP::~SolverPROXQP() {}
 void SolverPROXQP::resizeData() {
   SolverDDP::resizeData();
 
+  // What has the right size keeps its value
+  const auto fit = [](Eigen::VectorXd& v, const std::size_t n) {
+    if (static_cast<std::size_t>(v.size()) != n) {
+      v.setZero(n);
+    }
+  };
   const std::size_t T = problem_->get_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
@@ -154,13 +160,11 @@ void SolverPROXQP::resizeData() {
     const std::size_t nu = t < T ? models[t]->get_nu() : 0;
     const std::size_t nc =
         t < T ? models[t]->get_ng() : problem_->get_terminalModel()->get_ng();
-    if (t < T && static_cast<std::size_t>(du_[t].size()) != nu) {
-      us_try_[t].setZero(nu);
-      du_[t].setZero(nu);
-    }
-    if (static_cast<std::size_t>(y_[t].size()) != nc) {
-      y_[t].setZero(nc);
+    if (t < T) {
+      fit(us_try_[t], nu);
+      fit(du_[t], nu);
     }
+    fit(y_[t], nc);
     n_vars += static_cast<int>(nu);
     n_in += static_cast<int>(nc);
   }
@@ -184,9 +188,8 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   (void)reginit;
 
   START_PROFILER("SolverPROXQP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // Whatever is_updated() says: the first solver that reads the flag clears it
+  resizeData();
   setCandidate(init_xs, init_us, false);
   xs_[0] = problem_->get_x0();  // Otherwise xs[0] is overwritten by init_xs
                                 // inside setCandidate()
diff --git a/src/ddp.cpp b/src/ddp.cpp
index dbf96bc..f7dfe3e 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -64,9 +64,8 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double reginit) {
   START_PROFILER("SolverDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // Whatever is_updated() says: the first solver that reads the flag clears it
+  resizeData();
   // it is needed in case that init_xs[0] is infeasible
   xs_try_[0] = problem_->get_x0();
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/fddp.cpp b/src/fddp.cpp
index d7e33d8..ff9b56e 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -59,9 +59,8 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::size_t maxiter, const bool is_feasible,
                        const double reginit) {
   START_PROFILER("SolverFDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // Whatever is_updated() says: the first solver that reads the flag clears it
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 2be86d8..b2e2056 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -75,15 +75,19 @@ SolverSQP::~SolverSQP() {}
 void SolverSQP::resizeData() {
   SolverDDP::resizeData();
 
+  // What has the right size keeps its value
+  const auto fit = [](Eigen::VectorXd& v, const std::size_t n) {
+    if (static_cast<std::size_t>(v.size()) != n) {
+      v.setZero(n);
+    }
+  };
   const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract> >& models =
       problem_->get_runningModels();
   for (std::size_t t = 0; t < problem_->get_T(); ++t) {
     const std::size_t nu = models[t]->get_nu();
-    if (static_cast<std::size_t>(du_[t].size()) != nu) {
-      us_try_[t].setZero(nu);
-      du_[t].setZero(nu);
-      tmp_vec_u_[t].setZero(nu);
-    }
+    fit(us_try_[t], nu);
+    fit(du_[t], nu);
+    fit(tmp_vec_u_[t], nu);
   }
 }
 
@@ -94,9 +98,8 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   START_PROFILER("SolverSQP::solve");
   (void)is_feasible;
 
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // Whatever is_updated() says: the first solver that reads the flag clears it
+  resizeData();
   setCandidate(init_xs, init_us, false);
   xs_[0] = problem_->get_x0();  // Otherwise xs[0] is overwritten by init_xs
                                 // inside setCandidate()
-- 
2.43.0


From bc76a0056257306b6b8cd7367c2638d75634fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 18/30] fix: the profiler is not used inside the parallel loop
 over the multipliers

---
 src/csqp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 5172777..7f32b8e 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1301,13 +1301,13 @@ void SolverCSQP::update_lagrangian_parameters(const int iter) {
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract>>& datas =
       problem_->get_runningDatas();
 
+  // The profiler is not thread-safe
+  START_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads()) reduction( \
         max : norm_primal_, norm_dual_, norm_primal_rel_, norm_dual_rel_)
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    START_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
-
     const std::shared_ptr<crocoddyl::ActionModelAbstract>& m = models[t];
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
 
@@ -1372,6 +1372,8 @@ void SolverCSQP::update_lagrangian_parameters(const int iter) {
     }
   }
 
+  STOP_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
+
   dx_.back() = dxtilde_.back();
   const std::shared_ptr<crocoddyl::ActionModelAbstract>& m_T =
       problem_->get_terminalModel();
-- 
2.43.0


From 8e71c2880c07287b2d041ce9a2acca8a5e6dda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 19/30] fix: the profiler is not used by the threads of a
 failed trial

---
 src/csqp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 7f32b8e..715a798 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1503,7 +1503,9 @@ double SolverCSQP::tryStep(const double steplength) {
 
       if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
           raiseIfNaN(constraint_norm_try_)) {
+#ifndef CROCODDYL_WITH_MULTITHREADING
         profiler_tryStep.stop();
+#endif  // CROCODDYL_WITH_MULTITHREADING
         throw_pretty("step_error");
       }
 #ifdef CROCODDYL_WITH_MULTITHREADING
@@ -1518,6 +1520,7 @@ double SolverCSQP::tryStep(const double steplength) {
   }
 #ifdef CROCODDYL_WITH_MULTITHREADING
   if (error) {
+    profiler_tryStep.stop();
     std::rethrow_exception(error);
   }
 #endif  // CROCODDYL_WITH_MULTITHREADING
-- 
2.43.0


From 6c0e290ac2090afbc68bd8f2380974c060a3bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 20/30] fix: SolverPROXQP sizes its QP by the tangent space of
 the state

---
 src/csqp_proxqp.cpp | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index b044cb8..f0de54d 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -44,18 +44,18 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  // We allow nx and nu to change with time
+  // We allow ndx and nu to change with time
   n_vars = 0;
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -116,7 +116,7 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   y_.back().resize(nc);
   y_.back().setZero();
   n_in += nc;
-  // n_eq = T* nx;
+  // n_eq = T* ndx;
 
   C_.resize(n_in, n_vars);
   C_.setZero();
@@ -315,7 +315,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int ndx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -336,16 +336,16 @@ void SolverPROXQP::calc(const bool recalc) {
 
     // creating matrices
     if (t > 0) {
-      const double index_x = (t - 1) * nx;
-      P_.middleCols(index_x, nx).middleRows(index_x, nx) = d->Lxx;
-      P_.middleCols(index_u, nu).middleRows(index_x, nx) = d->Lxu;
-      P_.middleCols(index_x, nx).middleRows(index_u, nu) = d->Lxu.transpose();
-      q_.segment(index_x, nx) = d->Lx;
+      const double index_x = (t - 1) * ndx;
+      P_.middleCols(index_x, ndx).middleRows(index_x, ndx) = d->Lxx;
+      P_.middleCols(index_u, nu).middleRows(index_x, ndx) = d->Lxu;
+      P_.middleCols(index_x, ndx).middleRows(index_u, nu) = d->Lxu.transpose();
+      q_.segment(index_x, ndx) = d->Lx;
 
-      A_.middleCols((t - 1) * nx, nx).middleRows(t * nx, nx) = -d->Fx;
+      A_.middleCols((t - 1) * ndx, ndx).middleRows(t * ndx, ndx) = -d->Fx;
 
       if (nc != 0) {
-        C_.middleCols((t - 1) * nx, nx).middleRows(nin_count, nc) = d->Gx;
+        C_.middleCols((t - 1) * ndx, ndx).middleRows(nin_count, nc) = d->Gx;
       }
     }
     if (nc != 0) {
@@ -358,11 +358,11 @@ void SolverPROXQP::calc(const bool recalc) {
     P_.middleCols(index_u, nu).middleRows(index_u, nu) = d->Luu;
     q_.segment(index_u, nu) = d->Lu;
 
-    A_.middleCols(index_u, nu).middleRows(t * nx, nx) = -d->Fu;
+    A_.middleCols(index_u, nu).middleRows(t * ndx, ndx) = -d->Fu;
     // make faster
-    A_.middleCols(t * nx, nx).middleRows(t * nx, nx) =
-        Eigen::MatrixXd::Identity(nx, nx);
-    b_.segment(t * nx, nx) = fs_[t + 1];
+    A_.middleCols(t * ndx, ndx).middleRows(t * ndx, ndx) =
+        Eigen::MatrixXd::Identity(ndx, ndx);
+    b_.segment(t * ndx, ndx) = fs_[t + 1];
 
     index_u += nu;
   }
@@ -373,13 +373,13 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int ndx = m_T->get_state()->get_ndx();
 
-  P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
-  q_.segment((T - 1) * nx, nx) = d_T->Lx;
+  P_.middleCols((T - 1) * ndx, ndx).middleRows((T - 1) * ndx, ndx) = d_T->Lxx;
+  q_.segment((T - 1) * ndx, ndx) = d_T->Lx;
 
   if (nc != 0) {
-    C_.middleCols((T - 1) * nx, nx).middleRows(nin_count, nc) = d_T->Gx;
+    C_.middleCols((T - 1) * ndx, ndx).middleRows(nin_count, nc) = d_T->Gx;
     l_.segment(nin_count, nc) = lb - d_T->g;
     u_.segment(nin_count, nc) = ub - d_T->g;
     nin_count += nc;
@@ -433,12 +433,12 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int ndx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-    dx_[t + 1] = qp_.results.x.segment(t * nx, nx);
-    // double index_u = T *nx + t * nu;
+    dx_[t + 1] = qp_.results.x.segment(t * ndx, ndx);
+    // double index_u = T *ndx + t * nu;
     du_[t] = qp_.results.x.segment(index_u, nu);
     x_grad_norm_ +=
         dx_[t + 1]
@@ -447,8 +447,8 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
         du_[t]
             .lpNorm<1>();  // assuming that there is no gap in the initial state
 
-    lag_mul_[t + 1] = -qp_.results.y.segment(t * nx, nx);
-    lag_mul_[t + 1] = -qp_.results.y.segment(t * nx, nx);
+    lag_mul_[t + 1] = -qp_.results.y.segment(t * ndx, ndx);
+    lag_mul_[t + 1] = -qp_.results.y.segment(t * ndx, ndx);
     y_[t] = qp_.results.z.segment(nin_count, nc);
     nin_count += nc;
     index_u += nu;
-- 
2.43.0


From 2afa2a6c01f255927a245d2003479677ebcb3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 21/30] fix: FDDP's filter compares the gaps of a trial, not
 its state changes

forwardPass measured diff(xs_try[t], xnext), the motion of the state over a
node, as the gap norm of the trial, while the filter compares it with the
norm of the gaps of the iterates.
---
 src/fddp.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index ff9b56e..4b8ee0d 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -297,7 +297,7 @@ void SolverFDDP::forwardPass(const double steplength) {
   }
   START_PROFILER("SolverFDDP::forwardPass");
   cost_try_ = 0.;
-  gap_norm_try_ = 0;
+  gap_norm_try_ = 0;  // a roll-out with the full step has no gaps
   xnext_ = problem_->get_x0();
   const std::size_t T = problem_->get_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
@@ -322,9 +322,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -354,6 +351,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::size_t nu = m->get_nu();
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
+      m->get_state()->diff(xs_try_[t], xnext_, fs_try_[t]);
+      gap_norm_try_ += fs_try_[t].lpNorm<1>();
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -364,9 +363,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -383,6 +379,8 @@ void SolverFDDP::forwardPass(const double steplength) {
     lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_try_.back(), xnext_, fs_try_.back());
+    gap_norm_try_ += fs_try_.back().lpNorm<1>();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-- 
2.43.0


From eb3884377b66bf10a46b5d2095069c5618908cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 22/30] fix: CSQP does not solve with factorizations of nodes
 without controls

---
 src/csqp.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 715a798..412d2e6 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1185,8 +1185,10 @@ void SolverCSQP::backwardPass_without_rho_update() {
     }
 
     profiler_k.start();
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (nu != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
     profiler_k.stop();
 
     profiler_Vx.start();
@@ -1278,8 +1280,10 @@ void SolverCSQP::backwardPass_without_rho_update_mt() {
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (models[t]->get_nu() != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
   }
   profiler_mt2.stop();
   profiler_all.stop();
-- 
2.43.0


From b261bd5b8ab1f9940943d3198ffaa49c15132e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:39 +0000
Subject: [PATCH 23/30] fix: CSQP leaves the penalty of rows with contradictory
 bounds uninitialized

---
 src/csqp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 412d2e6..4a9b30e 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -634,7 +634,7 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
       } else if (abs(m->get_g_lb()[k] - m->get_g_ub()[k]) <= 1e-6) {
         rho_vec_[t][k] = 1e3 * rho_sparse_tmp;
         inv_rho_vec_[t][k] = 1. / (1e3 * rho_sparse_tmp);
-      } else if (m->get_g_lb()[k] < m->get_g_ub()[k]) {
+      } else {
         rho_vec_[t][k] = rho_sparse_tmp;
         inv_rho_vec_[t][k] = 1. / rho_sparse_tmp;
       }
@@ -652,8 +652,7 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
                    problem_->get_terminalModel()->get_g_ub()[k]) <= 1e-6) {
       rho_vec_.back()[k] = 1e3 * rho_sparse_tmp;
       inv_rho_vec_.back()[k] = 1. / (1e3 * rho_sparse_tmp);
-    } else if (problem_->get_terminalModel()->get_g_lb()[k] <
-               problem_->get_terminalModel()->get_g_ub()[k]) {
+    } else {
       rho_vec_.back()[k] = rho_sparse_tmp;
       inv_rho_vec_.back()[k] = 1. / rho_sparse_tmp;
     }
-- 
2.43.0


From 6d25c11e37c5be4a6446ac2108d10a32f803399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:23 +0000
Subject: [PATCH 24/30] fix: CSQP's callbacks saw the merit of the iterate
 before

---
 include/mim_solvers/csqp.hpp |  6 ++++++
 src/csqp.cpp                 | 42 ++++++++++++++++++++----------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 9eed4b9..08cd933 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -136,6 +136,12 @@ class SolverCSQP : public SolverDDP {
    */
   virtual void checkKKTConditions();
 
+  /**
+   * @brief Compute the merit function at the current iterate, with the
+   * multipliers of its direction
+   */
+  void computeMerit();
+
   const std::vector<Eigen::VectorXd>& get_xs_try() const { return xs_try_; };
   const std::vector<Eigen::VectorXd>& get_us_try() const { return us_try_; };
 
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 4a9b30e..406aef0 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -336,6 +336,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    // The callbacks report it
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -352,24 +354,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     gap_list_.push_back(gap_norm_);
     cost_list_.push_back(cost_);
 
-    // Calculate the coefficient of the merit function.
-    if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
-      lag_mul_inf_norm_ = 0;
-      for (const auto& lag_mul : lag_mul_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
-      }
-      for (const auto& y : y_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
-      }
-      merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
-                           (gap_norm_ + constraint_norm_);
-    } else {
-      merit_ =
-          cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
-    }
-
     // We need to recalculate the derivatives when the step length passes
     bool found = false;
     // less than filter_size_, less or equal iter_
@@ -463,6 +447,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    // The callbacks report it
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -718,6 +704,26 @@ void SolverCSQP::checkKKTConditions() {
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
 }
 
+void SolverCSQP::computeMerit() {
+  // Calculate the coefficient of the merit function.
+  if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
+    lag_mul_inf_norm_ = 0;
+    for (const auto& lag_mul : lag_mul_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
+    }
+    for (const auto& y : y_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
+    }
+    merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
+                         (gap_norm_ + constraint_norm_);
+  } else {
+    merit_ =
+        cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
+  }
+}
+
 void SolverCSQP::forwardPass(const double /*stepLength*/) {
   auto profiler = crocoddyl::getProfiler().watcher("SolverCSQP::forwardPass");
   profiler.start();
-- 
2.43.0


From a5474afe7f59842b0119e4b07597492cd32fb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 25/30] fix: CSQP's penalties are uninitialized memory until
 the first solve

---
 src/csqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 406aef0..e58aec8 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -121,7 +121,9 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     Vxx_fs_[t].setZero();
 
     rho_vec_[t].resize(nc);
+    rho_vec_[t].setZero();
     inv_rho_vec_[t].resize(nc);
+    inv_rho_vec_[t].setZero();
   }
 
   xs_try_.back() = problem_->get_terminalModel()->get_state()->zero();
@@ -153,7 +155,9 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   tmp_rhoGx_mat_.back().setZero();
 
   rho_vec_.back().resize(nc);
+  rho_vec_.back().setZero();
   inv_rho_vec_.back().resize(nc);
+  inv_rho_vec_.back().setZero();
 
   // Check that no equality constraint was specified through Crocoddyl's API
   n_eq_crocoddyl += problem_->get_terminalModel()->get_nh();
-- 
2.43.0


From 4d1f9302d806620ec78a32643432372c980bc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 26/30] fix: PROXQP's KKT and merit read from Python are those
 of its base class

---
 bindings/csqp_proxqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/csqp_proxqp.cpp b/bindings/csqp_proxqp.cpp
index 0bea304..a4eb0d1 100644
--- a/bindings/csqp_proxqp.cpp
+++ b/bindings/csqp_proxqp.cpp
@@ -87,6 +87,10 @@ void exposeSolverPROXQP() {
                     "Number of QP iterations")
       .add_property("KKT_norm", bp::make_function(&SolverPROXQP::get_KKT),
                     "KKT norm")
+      .add_property("KKT", bp::make_function(&SolverPROXQP::get_KKT),
+                    "KKT residual norm")
+      .add_property("merit", bp::make_function(&SolverPROXQP::get_merit),
+                    "Merit function value")
 
       .add_property("with_callbacks",
                     bp::make_function(&SolverPROXQP::getCallbacks),
-- 
2.43.0


From 4f29e6e29c26eec61e43bb242de2097efd5bb287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 27/30] fix: computeDirection and tryStep called from Python
 run the DDP ones

---
 bindings/ddp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ddp.cpp b/bindings/ddp.cpp
index 57de420..295ec38 100644
--- a/bindings/ddp.cpp
+++ b/bindings/ddp.cpp
@@ -21,10 +21,10 @@ namespace mim_solvers {
 namespace bp = boost::python;
 
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_solves, SolverDDP::solve, 0, 5)
+// Not qualified with the class, so that derived solvers run their own
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_computeDirections,
-                                       SolverDDP::computeDirection, 0, 1)
-BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, SolverDDP::tryStep,
-                                       0, 1)
+                                       computeDirection, 0, 1)
+BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, tryStep, 0, 1)
 
 // Wrapper function to handle deprecation warning upon instantiation
 std::shared_ptr<SolverDDP> createSolverDDP(
-- 
2.43.0


From 2b5334d5eb7275043fddbc10291a49156a7fec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:53 +0000
Subject: [PATCH 28/30] fix: a callback that changed the list of callbacks
 crashed the solve

---
 src/csqp.cpp |  8 ++++++--
 src/ddp.cpp  |  8 ++++----
 src/fddp.cpp |  8 ++++----
 src/sqp.cpp  | 16 ++++++++--------
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index e58aec8..b6e8abe 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -344,7 +344,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     computeMerit();
 
     // Perform callbacks
-    for (const auto& callback : callbacks_) {
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
       (*callback)(*this, "CSQP");
     }
 
@@ -455,7 +457,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     computeMerit();
 
     // Perform callbacks
-    for (const auto& callback : callbacks_) {
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
       (*callback)(*this, "CSQP");
     }
 
diff --git a/src/ddp.cpp b/src/ddp.cpp
index f7dfe3e..0bdbfc9 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -142,10 +142,10 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     stoppingCriteria();
 
     // Perform callbacks
-    const std::size_t n_callbacks = callbacks_.size();
-    for (std::size_t c = 0; c < n_callbacks; ++c) {
-      mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "DDP");
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
+      (*callback)(*this, "DDP");
     }
 
     // if (was_feasible_ && stop_ < th_stop_) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 4b8ee0d..2da5a6d 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -173,10 +173,10 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     stoppingCriteria();
 
     // Perform callbacks
-    const std::size_t n_callbacks = callbacks_.size();
-    for (std::size_t c = 0; c < n_callbacks; ++c) {
-      mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "FDDP");
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
+      (*callback)(*this, "FDDP");
     }
 
     // std::cout << "KKT = " << KKT_ << std::endl;
diff --git a/src/sqp.cpp b/src/sqp.cpp
index b2e2056..e2e278b 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -137,10 +137,10 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     checkKKTConditions();
 
     // Perform callbacks
-    const std::size_t n_callbacks = callbacks_.size();
-    for (std::size_t c = 0; c < n_callbacks; ++c) {
-      mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
+      (*callback)(*this, "SQP");
     }
 
     if (KKT_ <= termination_tol_) {
@@ -223,10 +223,10 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     checkKKTConditions();
 
     // Perform callbacks
-    const std::size_t n_callbacks = callbacks_.size();
-    for (std::size_t c = 0; c < n_callbacks; ++c) {
-      mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+    // They may change the list: the new one is for the next round
+    const std::vector<std::shared_ptr<CallbackAbstract>> callbacks = callbacks_;
+    for (const auto& callback : callbacks) {
+      (*callback)(*this, "SQP");
     }
 
     if (KKT_ <= termination_tol_) {
-- 
2.43.0


From 348fb0305252665ecf95873b4c5676c6e3b5c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:51 +0000
Subject: [PATCH 29/30] fix: equality constraints that a node got after
 construction were ignored

---
 src/csqp.cpp        | 32 ++++++++++++++++++++------------
 src/csqp_proxqp.cpp | 37 ++++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index b6e8abe..dd4c011 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -32,6 +32,23 @@ double monotonic_time() {
       .count();
 }
 
+// Crocoddyl's equality constraints are not supported: no solver may ignore them
+void check_no_equality_constraints(const crocoddyl::ShootingProblem& problem) {
+  std::size_t nh = problem.get_terminalModel()->get_nh();
+  for (const auto& model : problem.get_runningModels()) {
+    nh += model->get_nh();
+  }
+  if (nh != 0) {
+    throw_pretty(
+        "Error: nh must be zero !!! Crocoddyl's equality constraints API is "
+        "not supported by mim_solvers.\n"
+        "  >> Equality constraints of the form H(x,u) = h must be implemented "
+        "as g <= G(x,u) <= g by specifying \n"
+        "     lower and upper bounds in the constructor of the constraint "
+        "model residual or by setting g_ub and g_lb.")
+  }
+}
+
 }  // namespace
 
 SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
@@ -61,7 +78,6 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   rho_vec_.resize(T + 1);
   inv_rho_vec_.resize(T + 1);
   rho_sparse_ = rho_sparse_base_;
-  std::size_t n_eq_crocoddyl = 0;
 
   tmp_Vx_.resize(ndx);
   tmp_Vx_.setZero();
@@ -81,7 +97,6 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     const std::shared_ptr<crocoddyl::ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     std::size_t nc = model->get_ng();
-    n_eq_crocoddyl += model->get_nh();
 
     xs_try_[t] = model->get_state()->zero();
     us_try_[t] = Eigen::VectorXd::Zero(nu);
@@ -160,16 +175,7 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   inv_rho_vec_.back().setZero();
 
   // Check that no equality constraint was specified through Crocoddyl's API
-  n_eq_crocoddyl += problem_->get_terminalModel()->get_nh();
-  if (n_eq_crocoddyl != 0) {
-    throw_pretty(
-        "Error: nh must be zero !!! Crocoddyl's equality constraints API is "
-        "not supported by mim_solvers.\n"
-        "  >> Equality constraints of the form H(x,u) = h must be implemented "
-        "as g <= G(x,u) <= g by specifying \n"
-        "     lower and upper bounds in the constructor of the constraint "
-        "model residual or by setting g_ub and g_lb.")
-  }
+  check_no_equality_constraints(*problem_);
 
   const std::size_t n_alphas = 10;
   alphas_.resize(n_alphas);
@@ -268,6 +274,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
   start_time_ = monotonic_time();
 
+  // A node may have got some since
+  check_no_equality_constraints(*problem_);
   // Whatever is_updated() says: the first solver that reads the flag clears it
   resizeData();
   setCandidate(init_xs, init_us, false);
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index f0de54d..9dd3cd1 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -20,6 +20,27 @@ using namespace crocoddyl;
 
 namespace mim_solvers {
 
+namespace {
+
+// Crocoddyl's equality constraints are not supported: no solver may ignore them
+void check_no_equality_constraints(const crocoddyl::ShootingProblem& problem) {
+  std::size_t nh = problem.get_terminalModel()->get_nh();
+  for (const auto& model : problem.get_runningModels()) {
+    nh += model->get_nh();
+  }
+  if (nh != 0) {
+    throw_pretty(
+        "Error: nh must be zero !!! Crocoddyl's equality constraints API is "
+        "not supported by mim_solvers.\n"
+        "  >> Equality constraints of the form H(x,u) = h must be implemented "
+        "as g <= G(x,u) <= g by specifying \n"
+        "     lower and upper bounds in the constructor of the constraint "
+        "model residual or by setting g_ub and g_lb.")
+  }
+}
+
+}  // namespace
+
 SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     : SolverDDP(problem) {
   // std::cout << tmp << std::endl;
@@ -40,8 +61,6 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   xs_try_.resize(T + 1);
   us_try_.resize(T);
 
-  std::size_t n_eq_crocoddyl = 0;
-
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   // We allow ndx and nu to change with time
@@ -83,7 +102,6 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
     // Constraint Models
     int nc = model->get_ng();
-    n_eq_crocoddyl += model->get_nh();
     y_[t].resize(nc);
     y_[t].setZero();
     n_in += nc;
@@ -102,16 +120,7 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   int nc = problem_->get_terminalModel()->get_ng();
 
   // Check that no equality constraint was specified through Crocoddyl's API
-  n_eq_crocoddyl += problem_->get_terminalModel()->get_nh();
-  if (n_eq_crocoddyl != 0) {
-    throw_pretty(
-        "Error: nh must be zero !!! Crocoddyl's equality constraints API is "
-        "not supported by mim_solvers.\n"
-        "  >> Equality constraints of the form H(x,u) = h must be implemented "
-        "as g <= G(x,u) <= g by specifying \n"
-        "     lower and upper bounds in the constructor of the constraint "
-        "model residual or by setting g_ub and g_lb.")
-  }
+  check_no_equality_constraints(*problem_);
 
   y_.back().resize(nc);
   y_.back().setZero();
@@ -188,6 +197,8 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   (void)reginit;
 
   START_PROFILER("SolverPROXQP::solve");
+  // A node may have got some since
+  check_no_equality_constraints(*problem_);
   // Whatever is_updated() says: the first solver that reads the flag clears it
   resizeData();
   setCandidate(init_xs, init_us, false);
-- 
2.43.0


From 0775e8f70298e279098e4657e905e2e15eb0c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:37 +0000
Subject: [PATCH 30/30] fix: a solve that ends before its first iteration does
 not keep the timeout of the one before

---
 src/csqp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index dd4c011..762f3ad 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -273,6 +273,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   START_PROFILER("SolverCSQP::solve");
 
   start_time_ = monotonic_time();
+  max_solve_time_reached_ = false;
 
   // A node may have got some since
   check_no_equality_constraints(*problem_);
@@ -307,7 +308,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
 
   // Main SQP loop
-  max_solve_time_reached_ = false;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     if (monotonic_time() - start_time_ >= max_solve_time_) {
       max_solve_time_reached_ = true;
-- 
2.43.0


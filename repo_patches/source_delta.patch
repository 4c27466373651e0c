From 6185b14af93f7167f334e179f6248d37622c6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 01/99] fix: replace the running models by the given ones in
 ShootingProblem::set_runningModels

---
 include/crocoddyl/core/optctrl/shooting.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..d547915 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,7 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < models.size(); ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -477,7 +477,7 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
   running_models_.clear();
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
+    const std::shared_ptr<ActionModelAbstract>& model = models[i];
     running_models_.push_back(model);
     running_datas_.push_back(model->createData());
   }
-- 
2.43.0


From b61baf42a8b38ba12dc5820bdf7359d16339fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 02/99] fix: initialize the number of threads and the update
 flag in all the ShootingProblem constructors

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index d547915..ea788e4 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -134,7 +135,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From b2a2a558eb854a4a906a8e84087df649a7cd7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 03/99] fix: check the terminal dimensions in the
 ShootingProblem constructor with datas

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index ea788e4..ca486c3 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -111,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From aa6bbbb1def807afa1008a49121e1a8abbc5491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/99] fix: removing an inactive cost does not change the
 active residual dimension

---
 include/crocoddyl/core/costs/cost-sum.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..dc9bbba 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -71,7 +71,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 9733f4d28a10b176f1e5cd62f89a92c87efbdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/99] fix: adding a cost item whose name exists leaves the
 cost stack unchanged

---
 include/crocoddyl/core/costs/cost-sum.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index dc9bbba..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
-- 
2.43.0


From 1c6d797677fd6e1cd671d70b87ca586024d20f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 06/99] fix: resize the constraint manager's own memory before
 mapping it

---
 include/crocoddyl/core/constraints/constraint-manager.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..7d509d0 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -363,6 +363,12 @@ struct ConstraintDataManagerTpl {
     const std::size_t nu = model->get_nu();
     const std::size_t ng = running_node ? model->get_ng() : model->get_ng_T();
     const std::size_t nh = running_node ? model->get_nh() : model->get_nh_T();
+    g_internal.conservativeResize(ng);
+    Gx_internal.conservativeResize(ng, ndx);
+    Gu_internal.conservativeResize(ng, nu);
+    h_internal.conservativeResize(nh);
+    Hx_internal.conservativeResize(nh, ndx);
+    Hu_internal.conservativeResize(nh, nu);
     new (&g) Eigen::Map<VectorXs>(g_internal.data(), ng);
     new (&Gx) Eigen::Map<MatrixXs>(Gx_internal.data(), ng, ndx);
     new (&Gu) Eigen::Map<MatrixXs>(Gu_internal.data(), ng, nu);
-- 
2.43.0


From d60e8f4da2bf7f28fd77a0de7af7f4607923487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 07/99] fix: validate the given bounds in
 ConstraintModelAbstract::update_bounds

---
 include/crocoddyl/core/constraint-base.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..70897f1 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -118,16 +118,16 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
     throw_pretty(
         "Invalid argument: the upper bound is not higher than the lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/min value");
   }
   ng_ = ng_internal_;
-- 
2.43.0


From 02a0cd4861a0fb2c333098dcd8658c98899e94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 08/99] fix: increase the regularization of the DDP solvers
 from zero

---
 src/core/solvers/ddp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..38e7066 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -9,6 +9,8 @@
 
 #include "crocoddyl/core/solvers/ddp.hpp"
 
+#include <limits>
+
 namespace crocoddyl {
 
 SolverDDP::SolverDDP(std::shared_ptr<ShootingProblem> problem)
@@ -396,7 +398,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ == 0.) {  // a zero value cannot be increased by a factor
+    preg_ = reg_min_ > 0. ? reg_min_ : std::numeric_limits<double>::epsilon();
+  } else {
+    preg_ *= reg_incfactor_;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 04077db97f5c63a8d5f5a507c9ef32eaa4a97e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 09/99] fix: end SolverKKT::solve when the search direction
 cannot be computed

---
 src/core/solvers/kkt.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..79ea822 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,20 +38,14 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
+  const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(recalc);
+    } catch (std::exception& e) {
+      // There is no regularization to be increased, thus retrying the same
+      // computation cannot succeed
+      return false;
     }
 
     expectedImprovement();
-- 
2.43.0


From b55f22e97967a32b3f84313cf17167e8f619c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 10/99] fix: reset the feasibility status at the start of
 SolverKKT::solve

---
 src/core/solvers/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 79ea822..61215ae 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,6 +38,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     try {
-- 
2.43.0


From 54f0b67ff79d79f18516b9c3cc79b104152d00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 11/99] fix: initialize the expected improvement in the
 SolverAbstract constructor

---
 src/core/solver-base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..32623f3 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -22,6 +22,7 @@ SolverAbstract::SolverAbstract(std::shared_ptr<ShootingProblem> problem)
       cost_(0.),
       merit_(0.),
       stop_(0.),
+      d_(Eigen::Vector2d::Zero()),
       dV_(0.),
       dPhi_(0.),
       dVexp_(0.),
-- 
2.43.0


From 7317637ef51210f48a61161c0df4a74cb86b7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 12/99] fix: compute the inequality feasibility with the
 selected norm over all the nodes

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 32623f3..99fcb47 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -148,8 +148,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ =
+            std::max(tmp_feas_, (problem_->get_terminalData()->g - g_adj_.back())
+                                    .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -158,8 +159,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From 206e9c05980c0574e91200416f9317511a3357b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 13/99] fix: use the gradient of the free space in BoxQP's
 acceptance condition

---
 src/core/solvers/box-qp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..92e4b7b 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -159,7 +159,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
+      g_(solution_.free_idx[i]) = qf(i);
     }
 
     // Try different step lengths
-- 
2.43.0


From a169e1b94e0983249ebd9672ba9ea078e7ef69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 14/99] fix: try shorter steps in BoxQP, as a projected Newton
 step may need them to descend

---
 src/core/solvers/box-qp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 92e4b7b..2c13076 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -53,7 +53,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
   solution_.x = Eigen::VectorXd::Zero(nx);
   solution_.clamped_idx.reserve(nx_);
   solution_.free_idx.reserve(nx_);
-  const std::size_t n_alphas_ = 10;
+  const std::size_t n_alphas_ = 40;
   alphas_.resize(n_alphas_);
   for (std::size_t n = 0; n < n_alphas_; ++n) {
     alphas_[n] = 1. / pow(2., static_cast<double>(n));
-- 
2.43.0


From 3cf4ef40fa05a17e172807bbe7fd02a864d4c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 15/99] fix: reject the BoxQP acceptance thresholds out of
 range

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 2c13076..32e10db 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -217,7 +217,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From b95c8b5ddfa6e8d5e16665f3f0ac5583261f8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 16/99] fix: close the last gap in SolverBoxDDP's forward pass
 for any step length

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..39bc580 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -153,12 +153,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From efa630c49704429338bbf77da3fd7ef555c023da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 17/99] fix: size the box QP of the box solvers by the controls
 of the node

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 39bc580..b33a38b 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -75,6 +75,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..de511ce 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -74,6 +74,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
-- 
2.43.0


From 788f836ecec5818c98bea48cfa2fcbaea5dd36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 18/99] fix: reset the warm start of the box QPs when the
 problem changes

---
 src/core/solvers/box-ddp.cpp  | 1 +
 src/core/solvers/box-fddp.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b33a38b..6b3ac17 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -40,6 +40,7 @@ void SolverBoxDDP::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     Quu_inv_[t].conservativeResize(nu, nu);
+    k_[t].setZero();  // warm start of the box QP
     du_lb_[t].conservativeResize(nu);
     du_ub_[t].conservativeResize(nu);
   }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index de511ce..05642fe 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -40,6 +40,7 @@ void SolverBoxFDDP::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     Quu_inv_[t].conservativeResize(nu, nu);
+    k_[t].setZero();  // warm start of the box QP
     du_lb_[t].conservativeResize(nu);
     du_ub_[t].conservativeResize(nu);
   }
-- 
2.43.0


From 0fb656db375ee8ca741fcb38774c945b2e79df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 19/99] fix: use the equality constraints of the current
 trajectory in SolverIntro's Schur step

---
 include/crocoddyl/core/solvers/intro.hpp | 2 ++
 src/core/solvers/intro.cpp               | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..d3b1e93 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -190,6 +190,8 @@ class SolverIntro : public SolverFDDP {
       kz_;  //!< Feedforward term in the nullspace of \f$\mathbf{H_u}\f$
   std::vector<Eigen::MatrixXd>
       Kz_;  //!< Feedback gain in the nullspace of \f$\mathbf{H_u}\f$
+  std::vector<Eigen::VectorXd>
+      hs_;  //!< Equality constraints at the current trajectory
   std::vector<Eigen::VectorXd>
       ks_;  //!< Feedforward term related to the equality constraints
   std::vector<Eigen::MatrixXd>
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..71d3a39 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -30,6 +30,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   Quz_.resize(T);
   kz_.resize(T);
   Kz_.resize(T);
+  hs_.resize(T);
   ks_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
@@ -55,6 +56,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     Quz_[t] = Eigen::MatrixXd::Zero(nu, nh);
     kz_[t] = Eigen::VectorXd::Zero(nu);
     Kz_[t] = Eigen::MatrixXd::Zero(nu, ndx);
+    hs_[t] = Eigen::VectorXd::Zero(nh);
     ks_[t] = Eigen::VectorXd::Zero(nh);
     Ks_[t] = Eigen::MatrixXd::Zero(nh, ndx);
     QuuinvHuT_[t] = Eigen::MatrixXd::Zero(nu, nh);
@@ -216,6 +218,7 @@ void SolverIntro::resizeData() {
     Quz_[t].conservativeResize(nu, nh);
     kz_[t].conservativeResize(nu);
     Kz_[t].conservativeResize(nu, ndx);
+    hs_[t].conservativeResize(nh);
     ks_[t].conservativeResize(nh);
     Ks_[t].conservativeResize(nh, ndx);
     QuuinvHuT_[t].conservativeResize(nu, nh);
@@ -289,6 +292,9 @@ double SolverIntro::calcDiff() {
     case Schur:
       break;
   }
+  for (std::size_t t = 0; t < T; ++t) {
+    hs_[t] = datas[t]->h;
+  }
 
   STOP_PROFILER("SolverIntro::calcDiff");
   return cost_;
@@ -386,7 +392,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
+        ks_[t] = hs_[t];
         ks_[t].noalias() -= data->Hu * k_[t];
         Ks_[t] = data->Hx;
         Ks_[t].noalias() -= data->Hu * K_[t];
-- 
2.43.0


From 96508aaebb6618dcba8c2aeac3169e9e5057e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 20/99] fix: account for the regularization in BoxQP's
 objective and active set

---
 src/core/solvers/box-qp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 32e10db..1d1a63b 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -106,6 +106,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     // Compute the Cauchy point and active set
     g_ = q;
     g_.noalias() += H * x_;
+    g_ += reg_ * x_;
     for (std::size_t j = 0; j < nx_; ++j) {
       const double gj = g_(j);
       const double xj = x_(j);
@@ -163,7 +164,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     }
 
     // Try different step lengths
-    fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
+    fold_ =
+        0.5 * (x_.dot(H * x_) + reg_ * x_.squaredNorm()) + q.dot(x_);
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       double steplength = *it;
@@ -171,7 +173,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
         xnew_(i) =
             std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
       }
-      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
+      fnew_ = 0.5 * (xnew_.dot(H * xnew_) + reg_ * xnew_.squaredNorm()) +
+              q.dot(xnew_);
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
         break;
-- 
2.43.0


From 8b9ea34c1c94cc0704819a021e68717b8f423b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 21/99] fix: resize the KKT solver's data when the problem's
 nodes change

---
 src/core/solvers/kkt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 61215ae..ed050b0 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,6 +37,10 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    resizeData();
+    allocateData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   was_feasible_ = false;
   const bool recalc = true;
-- 
2.43.0


From 6206318d4fbf1d3cf00d98b0b9ead71e0a41c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 22/99] fix: forget the previous solve's improvement and trial
 when a solve starts

---
 src/core/solvers/fddp.cpp  | 1 +
 src/core/solvers/intro.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..57075b5 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -40,6 +40,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  d_.setZero();  // there is no trial yet to compute it from
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 71d3a39..34f1cc9 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -89,6 +89,8 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  dV_ = 0.;  // there is no trial yet
+  std::copy(xs_.begin(), xs_.end(), xs_try_.begin());
   if (zero_upsilon_) {
     upsilon_ = 0.;
   }
-- 
2.43.0


From 6a6880519137e51c39454d86fc929183b0eaa2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:18 +0000
Subject: [PATCH 23/99] fix: hold entries of the box QP that almost reach a
 bound, instead of approaching it without end

---
 src/core/solvers/box-qp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 1d1a63b..a031ba6 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -112,7 +112,14 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
       const double xj = x_(j);
       const double lbj = lb(j);
       const double ubj = ub(j);
-      if ((xj == lbj && gj > 0.) || (xj == ubj && gj < 0.)) {
+      // an entry that is pushed against a bound it almost reaches is held there,
+      // otherwise ever shorter steps would approach that bound without end
+      const double eps = 1e-10 * std::max(1., std::abs(xj));
+      if (xj - lbj <= eps && gj > 0.) {
+        x_(j) = lbj;
+        solution_.clamped_idx.push_back(j);
+      } else if (ubj - xj <= eps && gj < 0.) {
+        x_(j) = ubj;
         solution_.clamped_idx.push_back(j);
       } else {
         solution_.free_idx.push_back(j);
-- 
2.43.0


From 8f170c242ce76528950ada308cd3fdb9d8aeb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 24/99] fix: write the matrices of the LQR models into every
 data object

---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..0efea1d 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 87037881182256f57569fdcc9679b22a5cb33200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 25/99] fix: split the constraint matrices of the LQR data by
 the state's size

---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 0efea1d..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -302,16 +302,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From 358b4f89f1023832627badec953af88aa25278ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 26/99] fix: check the columns of the dynamics matrices given
 to set_LQR

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 15 +++++++++------
 include/crocoddyl/core/actions/lqr.hxx      | 12 +++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..5bee72c 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -357,20 +357,23 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nq) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..78bca51 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -339,15 +339,17 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nx) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From 03c52d1a1e5a5dfcbda65ec8dabc86c23a70c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 27/99] fix: return the right weights from the LQR model's
 deprecated getters

---
 include/crocoddyl/core/actions/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 7cf0d52..b8d5d07 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -223,8 +223,8 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   DEPRECATED("Use get_q", const VectorXs& get_lx() const { return get_q(); })
   DEPRECATED("Use get_r", const VectorXs& get_lu() const { return get_r(); })
   DEPRECATED("Use get_Q", const MatrixXs& get_Lxx() const { return get_Q(); })
-  DEPRECATED("Use get_R", const MatrixXs& get_Lxu() const { return get_R(); })
-  DEPRECATED("Use get_N", const MatrixXs& get_Luu() const { return get_N(); })
+  DEPRECATED("Use get_N", const MatrixXs& get_Lxu() const { return get_N(); })
+  DEPRECATED("Use get_R", const MatrixXs& get_Luu() const { return get_R(); })
   DEPRECATED(
       "Use set_LQR", void set_Fx(const MatrixXs& A) {
         set_LQR(A, B_, Q_, R_, N_, G_, H_, f_, q_, r_, g_, h_);
-- 
2.43.0


From 4bdb9c76456f7443ab0ef76282aba1d03d8a38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 28/99] fix: keep the limits and the drift flag when copying an
 LQR model

---
 include/crocoddyl/core/actions/diff-lqr.hpp | 5 +++++
 include/crocoddyl/core/actions/diff-lqr.hxx | 7 ++++++-
 include/crocoddyl/core/actions/lqr.hpp      | 5 +++++
 include/crocoddyl/core/actions/lqr.hxx      | 7 ++++++-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 7e4dd3a..3eef453 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -291,10 +291,15 @@ class DifferentialActionModelLQRTpl
   virtual void print(std::ostream& os) const override;
 
  protected:
+  using Base::g_lb_;  //!< Lower bound of the inequality constraints
+  using Base::g_ub_;  //!< Upper bound of the inequality constraints
+  using Base::has_control_limits_;  //!< Indicates if there are control limits
   using Base::ng_;     //!< Equality constraint dimension
   using Base::nh_;     //!< Inequality constraint dimension
   using Base::nu_;     //!< Control dimension
   using Base::state_;  //!< Model of the state
+  using Base::u_lb_;   //!< Lower control limits
+  using Base::u_ub_;   //!< Upper control limits
 
  private:
   MatrixXs Aq_;
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 5bee72c..e6519c0 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -78,10 +78,15 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  g_lb_ = copy.g_lb_;
+  g_ub_ = copy.g_ub_;
+  u_lb_ = copy.u_lb_;
+  u_ub_ = copy.u_ub_;
+  has_control_limits_ = copy.has_control_limits_;
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index b8d5d07..8fc8fbd 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -266,10 +266,15 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   virtual void print(std::ostream& os) const override;
 
  protected:
+  using Base::g_lb_;  //!< Lower bound of the inequality constraints
+  using Base::g_ub_;  //!< Upper bound of the inequality constraints
+  using Base::has_control_limits_;  //!< Indicates if there are control limits
   using Base::ng_;     //!< Equality constraint dimension
   using Base::nh_;     //!< Inequality constraint dimension
   using Base::nu_;     //!< Control dimension
   using Base::state_;  //!< Model of the state
+  using Base::u_lb_;   //!< Lower control limits
+  using Base::u_ub_;   //!< Upper control limits
 
  private:
   MatrixXs A_;
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 78bca51..e74d7e9 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -77,10 +77,15 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  g_lb_ = copy.g_lb_;
+  g_ub_ = copy.g_ub_;
+  u_lb_ = copy.u_lb_;
+  u_ub_ = copy.u_ub_;
+  has_control_limits_ = copy.has_control_limits_;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 29549a2804a083911b6ef268c06b77a802d6b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 29/99] fix: write the weights of the weighted quadratic
 activation into every data object

---
 .../core/activations/weighted-quadratic.hpp   | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..0752581 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,25 +56,13 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
     std::shared_ptr<Data> data =
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
-
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +82,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +98,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 9960e0e5de8e49f253082c48f9354ba81cf35ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 30/99] fix: keep the time step and the weights when casting
 the unicycle model

---
 include/crocoddyl/core/actions/unicycle.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..b88030e 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,8 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 0f90e1f0ebd0275bb46841963f9984c3e572e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 31/99] fix: a model has control limits when any of its limits
 is finite

---
 include/crocoddyl/core/action-base.hxx      | 2 +-
 include/crocoddyl/core/diff-action-base.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..da6fba9 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -241,7 +241,7 @@ void ActionModelAbstractTpl<Scalar>::set_u_ub(const VectorXs& u_ub) {
 template <typename Scalar>
 void ActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
diff --git a/include/crocoddyl/core/diff-action-base.hxx b/include/crocoddyl/core/diff-action-base.hxx
index 623763b..f013a4c 100644
--- a/include/crocoddyl/core/diff-action-base.hxx
+++ b/include/crocoddyl/core/diff-action-base.hxx
@@ -225,7 +225,7 @@ void DifferentialActionModelAbstractTpl<Scalar>::set_u_ub(
 template <typename Scalar>
 void DifferentialActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
-- 
2.43.0


From 670cb9157753fa97df272783c1fb840f7f24e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 32/99] fix: keep the state and control limits when casting or
 copying states and models

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 8 ++++++++
 include/crocoddyl/core/actions/lqr.hxx      | 8 ++++++++
 include/crocoddyl/core/actions/unicycle.hpp | 2 ++
 include/crocoddyl/core/actions/unicycle.hxx | 4 ++++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 5 files changed, 24 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index e6519c0..e0b86f3 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -82,6 +82,8 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  state_->set_lb(copy.state_->get_lb());
+  state_->set_ub(copy.state_->get_ub());
   g_lb_ = copy.g_lb_;
   g_ub_ = copy.g_ub_;
   u_lb_ = copy.u_lb_;
@@ -231,6 +233,12 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
+  ret.set_g_lb(g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index e74d7e9..dd46206 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -81,6 +81,8 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  state_->set_lb(copy.state_->get_lb());
+  state_->set_ub(copy.state_->get_ub());
   g_lb_ = copy.g_lb_;
   g_ub_ = copy.g_ub_;
   u_lb_ = copy.u_lb_;
@@ -222,6 +224,12 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
+  ret.set_g_lb(g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/unicycle.hpp b/include/crocoddyl/core/actions/unicycle.hpp
index 7b44814..8247932 100644
--- a/include/crocoddyl/core/actions/unicycle.hpp
+++ b/include/crocoddyl/core/actions/unicycle.hpp
@@ -75,6 +75,8 @@ class ActionModelUnicycleTpl : public ActionModelAbstractTpl<_Scalar> {
  protected:
   using Base::nu_;     //!< Control dimension
   using Base::state_;  //!< Model of the state
+  using Base::u_lb_;   //!< Lower control limits
+  using Base::u_ub_;   //!< Upper control limits
 
  private:
   Vector2s cost_weights_;
diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index b88030e..f8d5a8c 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -117,6 +117,10 @@ ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   ReturnType ret;
   ret.set_dt(scalar_cast<NewScalar>(dt_));
   ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
+  ret.set_u_lb(u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..96857a5 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -182,6 +182,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From e2829c39b72df52052d08676f48f2b7e9fb2ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 33/99] fix: start the returned control-Jacobian products from
 zero

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From 660134ed3e5a70254ce4c8768eb3bdc6dab4fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 34/99] fix: Jintegrate of the Euclidean state sets the whole
 Jacobian

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 96857a5..74fecc3 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,6 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         Jfirst.diagonal().array() = Scalar(1.);
         break;
       case addto:
@@ -149,6 +150,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         Jsecond.diagonal().array() = Scalar(1.);
         break;
       case addto:
-- 
2.43.0


From f2ec47ff8d6d133c2757f043999cf9ea923e349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 35/99] fix: integrators answer checkData for data of another
 model instead of dereferencing null

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..7d054d7 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -357,7 +357,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From c627584da89b21ea02211743ef5138cdb0910623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 36/99] fix: Runge-Kutta slopes: derivative of the second stage
 uses its own stage time and the state's Jacobian

---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 7d054d7..26306a1 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From 7fa8a954599ecd55037a06e468f67d5a2902f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 37/99] fix: square the weights in the Hessian of the weighted
 quadratic barrier

---
 .../crocoddyl/core/activations/weighted-quadratic-barrier.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
-- 
2.43.0


From bffaead6f3c68e716ccb7803efaff21e18b2b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 38/99] fix: initialize the forward-dynamics flag of the
 joint-effort residual

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From c4b014dbbe9bd6d775f9de455e9bf18d708e1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 39/99] fix: clear the state derivative of the terminal
 joint-acceleration residual

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 7 +++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..42f2778 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,13 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const std::shared_ptr<ResidualDataAbstract>&
+   * data, const Eigen::Ref<const VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..19fd6e9 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,13 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From 65f999726a7824e663380ab6d9eb234d351b7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 40/99] fix: measure paused parts in the stopwatch with its own
 clock

---
 src/core/utils/stop-watch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index d4051c7..ccb4958 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -162,7 +162,7 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
 void Stopwatch::pause(const string& perf_name) {
   if (!active) return;
 
-  long double clock_end = (long double)clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -175,6 +175,8 @@ void Stopwatch::pause(const string& perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
-- 
2.43.0


From 6e0d0d18c45d7e5090b0872e3b9165a738d24a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 41/99] fix: record the minimum of the first measurement in the
 stopwatch

---
 src/core/utils/stop-watch.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index ccb4958..ada7837 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -152,7 +152,7 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
   // Update min/max time
   if (lapse >= perf_info.max_time)
     perf_info.max_time = lapse;
-  else if (lapse <= perf_info.min_time)
+  if (lapse <= perf_info.min_time)
     perf_info.min_time = lapse;
 
   // Update total time
@@ -228,8 +228,8 @@ void Stopwatch::reset(const string& perf_name) {
 
   perf_info.clock_start = 0;
   perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
+  perf_info.min_time = std::numeric_limits<long double>::max();
+  perf_info.max_time = std::numeric_limits<long double>::min();
   perf_info.last_time = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
-- 
2.43.0


From 02f0c617368be9bada18f6f32573be2a7474eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 42/99] fix: account the parts before a pause in the
 measurement that ends with stop

---
 src/core/utils/stop-watch.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index ada7837..8a62f9c 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -116,11 +116,6 @@ void Stopwatch::start(const string& perf_name) {
   // Take ctime
   perf_info.clock_start = take_time();
 
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
 }
 
 void Stopwatch::stop(const string& perf_name) {
@@ -146,6 +141,15 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
 
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
+  // Update total time
+  perf_info.total_time += lapse;
+
+  // Add the parts measured before the pauses
+  if (perf_info.paused) {
+    lapse += perf_info.last_time;
+    perf_info.paused = false;
+  }
+
   // Update last time
   perf_info.last_time = lapse;
 
@@ -154,9 +158,6 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
     perf_info.max_time = lapse;
   if (lapse <= perf_info.min_time)
     perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
 }
 
 void Stopwatch::pause(const string& perf_name) {
@@ -178,8 +179,9 @@ void Stopwatch::pause(const string& perf_name) {
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
   // Update total time
-  perf_info.last_time += lapse;
+  perf_info.last_time = perf_info.paused ? perf_info.last_time + lapse : lapse;
   perf_info.total_time += lapse;
+  perf_info.paused = true;
 }
 
 void Stopwatch::reset_all() {
@@ -357,7 +359,6 @@ void Stopwatch::Watcher::_start() {
   }
 
   p->clock_start = w.take_time();
-  p->paused = false;
 }
 
 void Stopwatch::Watcher::_stop() {
-- 
2.43.0


From 394fab496ff2e95882552995c3158f717ed14a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 43/99] fix: keep watchers of a turned-off stopwatch from
 recording

---
 src/core/utils/stop-watch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index 8a62f9c..5b63df6 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -352,7 +352,7 @@ Stopwatch::Watcher Stopwatch::watcher(const string& perf_name) {
 }
 
 void Stopwatch::Watcher::_start() {
-  if (!w.profiler_active) return;
+  if (!w.profiler_active || !w.active) return;
 
   if (p == nullptr) {
     p = &w.get_or_create_perf(n);
@@ -362,7 +362,7 @@ void Stopwatch::Watcher::_start() {
 }
 
 void Stopwatch::Watcher::_stop() {
-  if (!w.profiler_active || (p == nullptr)) return;
+  if (!w.profiler_active || !w.active || (p == nullptr)) return;
 
   long double clock_end = w.take_time();
   w.stop_perf(*p, clock_end);
-- 
2.43.0


From 84d901afa1df43e93b446f851df451daae723124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 44/99] fix: forward the state derivative of the inner
 actuation in ActuationSquashingModel

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From ad83738d6ad73b6098a9b4a66117cd5bcdc3920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 45/99] fix: reject settings of the solvers that are not a
 number

---
 src/core/solver-base.cpp    | 14 +++++++-------
 src/core/solvers/box-qp.cpp |  6 +++---
 src/core/solvers/ddp.cpp    | 20 ++++++++++----------
 src/core/solvers/fddp.cpp   |  2 +-
 src/core/solvers/intro.cpp  |  2 +-
 src/core/solvers/ipopt.cpp  |  2 +-
 6 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 99fcb47..5179dab 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -415,14 +415,14 @@ void SolverAbstract::set_us(const std::vector<Eigen::VectorXd>& us) {
 }
 
 void SolverAbstract::set_preg(const double preg) {
-  if (preg < 0.) {
+  if (!(preg >= 0.)) {
     throw_pretty("Invalid argument: " << "preg value has to be positive.");
   }
   preg_ = preg;
 }
 
 void SolverAbstract::set_dreg(const double dreg) {
-  if (dreg < 0.) {
+  if (!(dreg >= 0.)) {
     throw_pretty("Invalid argument: " << "dreg value has to be positive.");
   }
   dreg_ = dreg;
@@ -431,7 +431,7 @@ void SolverAbstract::set_dreg(const double dreg) {
 DEPRECATED(
     "Use set_preg for gettting the primal-variable regularization",
     void SolverAbstract::set_xreg(const double xreg) {
-      if (xreg < 0.) {
+      if (!(xreg >= 0.)) {
         throw_pretty("Invalid argument: " << "xreg value has to be positive.");
       }
       xreg_ = xreg;
@@ -441,7 +441,7 @@ DEPRECATED(
 DEPRECATED(
     "Use set_preg for gettting the primal-variable regularization",
     void SolverAbstract::set_ureg(const double ureg) {
-      if (ureg < 0.) {
+      if (!(ureg >= 0.)) {
         throw_pretty("Invalid argument: " << "ureg value has to be positive.");
       }
       ureg_ = ureg;
@@ -449,7 +449,7 @@ DEPRECATED(
     })
 
 void SolverAbstract::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep || th_acceptstep > 1) {
+  if (!(th_acceptstep > 0. && th_acceptstep <= 1.)) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 1.");
   }
@@ -457,14 +457,14 @@ void SolverAbstract::set_th_acceptstep(const double th_acceptstep) {
 }
 
 void SolverAbstract::set_th_stop(const double th_stop) {
-  if (th_stop <= 0.) {
+  if (!(th_stop > 0.)) {
     throw_pretty("Invalid argument: " << "th_stop value has to higher than 0.");
   }
   th_stop_ = th_stop;
 }
 
 void SolverAbstract::set_th_gaptol(const double th_gaptol) {
-  if (0. > th_gaptol) {
+  if (!(th_gaptol >= 0.)) {
     throw_pretty("Invalid argument: " << "th_gaptol value has to be positive.");
   }
   th_gaptol_ = th_gaptol;
diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index a031ba6..f0463ec 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -227,7 +227,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
+  if (!(th_acceptstep > 0. && th_acceptstep < 0.5)) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
@@ -235,14 +235,14 @@ void BoxQP::set_th_acceptstep(const double th_acceptstep) {
 }
 
 void BoxQP::set_th_grad(const double th_grad) {
-  if (0. > th_grad) {
+  if (!(th_grad >= 0.)) {
     throw_pretty("Invalid argument: " << "th_grad value has to be positive.");
   }
   th_grad_ = th_grad;
 }
 
 void BoxQP::set_reg(const double reg) {
-  if (0. > reg) {
+  if (!(reg >= 0.)) {
     throw_pretty("Invalid argument: " << "reg value has to be positive.");
   }
   reg_ = reg;
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 38e7066..f0de751 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -518,7 +518,7 @@ SolverDDP::get_K() const {
 const std::vector<Eigen::VectorXd>& SolverDDP::get_k() const { return k_; }
 
 void SolverDDP::set_reg_incfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_incfactor value is higher than 1.");
   }
@@ -526,7 +526,7 @@ void SolverDDP::set_reg_incfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_decfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_decfactor value is higher than 1.");
   }
@@ -534,7 +534,7 @@ void SolverDDP::set_reg_decfactor(const double regfactor) {
 }
 
 void SolverDDP::set_regfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty("Invalid argument: " << "regfactor value is higher than 1.");
   }
   set_reg_incfactor(regfactor);
@@ -542,28 +542,28 @@ void SolverDDP::set_regfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_min(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_regmin(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_reg_max(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
 }
 
 void SolverDDP::set_regmax(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
@@ -589,7 +589,7 @@ void SolverDDP::set_alphas(const std::vector<double>& alphas) {
 }
 
 void SolverDDP::set_th_stepdec(const double th_stepdec) {
-  if (0. >= th_stepdec || th_stepdec > 1.) {
+  if (!(th_stepdec > 0. && th_stepdec <= 1.)) {
     throw_pretty(
         "Invalid argument: " << "th_stepdec value should between 0 and 1.");
   }
@@ -597,7 +597,7 @@ void SolverDDP::set_th_stepdec(const double th_stepdec) {
 }
 
 void SolverDDP::set_th_stepinc(const double th_stepinc) {
-  if (0. >= th_stepinc || th_stepinc > 1.) {
+  if (!(th_stepinc > 0. && th_stepinc <= 1.)) {
     throw_pretty(
         "Invalid argument: " << "th_stepinc value should between 0 and 1.");
   }
@@ -605,7 +605,7 @@ void SolverDDP::set_th_stepinc(const double th_stepinc) {
 }
 
 void SolverDDP::set_th_grad(const double th_grad) {
-  if (0. > th_grad) {
+  if (!(th_grad >= 0.)) {
     throw_pretty("Invalid argument: " << "th_grad value has to be positive.");
   }
   th_grad_ = th_grad;
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 57075b5..1733ad9 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -269,7 +269,7 @@ void SolverFDDP::forwardPass(const double steplength) {
 double SolverFDDP::get_th_acceptnegstep() const { return th_acceptnegstep_; }
 
 void SolverFDDP::set_th_acceptnegstep(const double th_acceptnegstep) {
-  if (0. > th_acceptnegstep) {
+  if (!(th_acceptnegstep >= 0.)) {
     throw_pretty(
         "Invalid argument: " << "th_acceptnegstep value has to be positive.");
   }
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 34f1cc9..5ec2de7 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -455,7 +455,7 @@ void SolverIntro::set_equality_solver(const EqualitySolverType type) {
 void SolverIntro::set_th_feas(const double th_feas) { th_feas_ = th_feas; }
 
 void SolverIntro::set_rho(const double rho) {
-  if (0. >= rho || rho > 1.) {
+  if (!(rho > 0. && rho <= 1.)) {
     throw_pretty("Invalid argument: " << "rho value should between 0 and 1.");
   }
   rho_ = rho;
diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..d808b2d 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -73,7 +73,7 @@ void SolverIpopt::setNumericIpoptOption(const std::string& tag,
 }
 
 void SolverIpopt::set_th_stop(const double th_stop) {
-  if (th_stop <= 0.) {
+  if (!(th_stop > 0.)) {
     throw_pretty("Invalid argument: " << "th_stop value has to higher than 0.");
   }
   th_stop_ = th_stop;
-- 
2.43.0


From bc895e78c4e56851818e1d9980ddf0ffea5e0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 46/99] fix: check every step length given to set_alphas

---
 src/core/solvers/box-qp.cpp | 8 +++++++-
 src/core/solvers/ddp.cpp    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index f0463ec..b8ccaab 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -249,13 +249,19 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas list has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (!(prev_alpha > 0.)) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
   for (std::size_t i = 1; i < alphas.size(); ++i) {
     double alpha = alphas[i];
-    if (0. >= alpha) {
+    if (!(alpha > 0.)) {
       throw_pretty("Invalid argument: " << "alpha values has to be positive.");
     }
     if (alpha >= prev_alpha) {
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index f0de751..38eb01a 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -570,13 +570,19 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas list has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (!(prev_alpha > 0.)) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
   for (std::size_t i = 1; i < alphas.size(); ++i) {
     double alpha = alphas[i];
-    if (0. >= alpha) {
+    if (!(alpha > 0.)) {
       throw_pretty("Invalid argument: " << "alpha values has to be positive.");
     }
     if (alpha >= prev_alpha) {
-- 
2.43.0


From ad279c7c31b06673a11b106f4b8bbf8f7c45e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 47/99] fix: reject constraint bounds that are not a number

---
 include/crocoddyl/core/constraint-base.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 70897f1..c129cfc 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -114,7 +114,7 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
         "Invalid argument: the dimension of the lower/upper bound is not the "
         "same to ng.")
   }
-  if (((upper - lower).array() <= Scalar(0.)).any()) {
+  if (!((upper - lower).array() > Scalar(0.)).all()) {
     throw_pretty(
         "Invalid argument: the upper bound is not higher than the lower bound.")
   }
-- 
2.43.0


From d81689e9c588e118ad94884d3356636af855236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 48/99] fix: copy the neutral control in the
 ActionModelAbstract copy constructor

---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index da6fba9..4791cd5 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -42,6 +42,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       ng_T_(other.ng_T_),
       nh_T_(other.nh_T_),
       state_(other.state_),
+      unone_(other.unone_),
       g_lb_(other.g_lb_),
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
-- 
2.43.0


From 3cb4ef47ca5e5be68b88a35337588149b3327032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 49/99] fix: keep the type of a constraint without inequalities
 in update_bounds

---
 include/crocoddyl/core/constraint-base.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index c129cfc..a47eaf4 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -134,7 +134,9 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
   nh_ = nh_internal_;
   lb_ = lower;
   ub_ = upper;
-  if (nh_ == 0) {
+  if (ng_ == 0) {
+    type_ = ConstraintType::Equality;
+  } else if (nh_ == 0) {
     type_ = ConstraintType::Inequality;
   } else {
     type_ = ConstraintType::Both;
-- 
2.43.0


From b8c21a1201d2590f22e2b1bf386d2fec594c903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 50/99] fix: squashing cast keeps the smoothing and input
 bounds

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..6277985 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -75,6 +75,9 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
+    ret.set_s_lb(s_lb_.template cast<NewScalar>());
+    ret.set_s_ub(s_ub_.template cast<NewScalar>());
     return ret;
   }
 
-- 
2.43.0


From 25a18070965a8cce3ae6e8cc892e50dc979195b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 51/99] fix: activation bounds cast does not shrink the bounds
 again

---
 .../core/activations/quadratic-barrier.hpp       | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..4c1b60a 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,20 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    ReturnType res;
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
+    res.beta = scalar_cast<NewScalar>(beta);
+    // Note that beta is already applied and that the maximum values stand for
+    // unbounded components
+    for (Eigen::Index i = 0; i < lb.size(); ++i) {
+      if (lb(i) == -std::numeric_limits<Scalar>::max()) {
+        res.lb(i) = -std::numeric_limits<NewScalar>::max();
+      }
+      if (ub(i) == std::numeric_limits<Scalar>::max()) {
+        res.ub(i) = std::numeric_limits<NewScalar>::max();
+      }
+    }
     return res;
   }
 
-- 
2.43.0


From c8c83010e51f22637d5c90497436a2461890aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 52/99] fix: numerical-difference casts keep the Gauss
 approximation and limits

---
 include/crocoddyl/core/numdiff/action.hxx      | 6 +++++-
 include/crocoddyl/core/numdiff/diff-action.hxx | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..5532187 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -336,7 +336,11 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_g_lb(this->get_g_lb().template cast<NewScalar>());
+  res.set_g_ub(this->get_g_ub().template cast<NewScalar>());
+  res.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+  res.set_u_ub(this->get_u_ub().template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..2b17509 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -329,7 +329,11 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_g_lb(this->get_g_lb().template cast<NewScalar>());
+  res.set_g_ub(this->get_g_ub().template cast<NewScalar>());
+  res.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+  res.set_u_ub(this->get_u_ub().template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 83a35d539e662ff09b2163d3ba08eb1bac612fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 53/99] fix: integrator casts keep the control limits

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index fd538f0..91973dd 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(this->get_u_ub().template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(this->get_u_ub().template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 26306a1..69d9d5b 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -341,10 +341,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(this->get_u_ub().template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(this->get_u_ub().template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From 8d8beae257421e10d53e5eb192baa6d07f396726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 54/99] fix: numerical-difference state cast keeps the limits

---
 include/crocoddyl/core/numdiff/state.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..181e4ad 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -210,6 +210,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(this->get_lb().template cast<NewScalar>());
+  res.set_ub(this->get_ub().template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 2e820d192734c01400f0df2c3cf1bf59d3258182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 55/99] fix: numdiff action models report the inequality bounds
 of the original model

---
 include/crocoddyl/core/numdiff/action.hpp      | 12 ++++++++++++
 include/crocoddyl/core/numdiff/action.hxx      | 12 ++++++++++++
 include/crocoddyl/core/numdiff/diff-action.hpp | 12 ++++++++++++
 include/crocoddyl/core/numdiff/diff-action.hxx | 12 ++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hpp b/include/crocoddyl/core/numdiff/action.hpp
index 43ab73d..d33431d 100644
--- a/include/crocoddyl/core/numdiff/action.hpp
+++ b/include/crocoddyl/core/numdiff/action.hpp
@@ -137,6 +137,18 @@ class ActionModelNumDiffTpl : public ActionModelAbstractTpl<_Scalar> {
    */
   void set_disturbance(const Scalar disturbance);
 
+  /**
+   * @brief Return the lower bound of the inequality constraints of the original
+   * model
+   */
+  virtual const VectorXs& get_g_lb() const override;
+
+  /**
+   * @brief Return the upper bound of the inequality constraints of the original
+   * model
+   */
+  virtual const VectorXs& get_g_ub() const override;
+
   /**
    * @brief Identify if the Gauss approximation is going to be used or not.
    */
diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 5532187..16dd57d 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -364,6 +364,18 @@ void ActionModelNumDiffTpl<Scalar>::set_disturbance(const Scalar disturbance) {
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
 }
 
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+ActionModelNumDiffTpl<Scalar>::get_g_lb() const {
+  return model_->get_g_lb();
+}
+
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+ActionModelNumDiffTpl<Scalar>::get_g_ub() const {
+  return model_->get_g_ub();
+}
+
 template <typename Scalar>
 bool ActionModelNumDiffTpl<Scalar>::get_with_gauss_approx() {
   return with_gauss_approx_;
diff --git a/include/crocoddyl/core/numdiff/diff-action.hpp b/include/crocoddyl/core/numdiff/diff-action.hpp
index d65ef6a..63cc34b 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hpp
+++ b/include/crocoddyl/core/numdiff/diff-action.hpp
@@ -145,6 +145,18 @@ class DifferentialActionModelNumDiffTpl
    */
   void set_disturbance(const Scalar disturbance);
 
+  /**
+   * @brief Return the lower bound of the inequality constraints of the original
+   * model
+   */
+  virtual const VectorXs& get_g_lb() const override;
+
+  /**
+   * @brief Return the upper bound of the inequality constraints of the original
+   * model
+   */
+  virtual const VectorXs& get_g_ub() const override;
+
   /**
    * @brief Identify if the Gauss approximation is going to be used or not.
    */
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 2b17509..e82c327 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -359,6 +359,18 @@ void DifferentialActionModelNumDiffTpl<Scalar>::set_disturbance(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
 }
 
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+DifferentialActionModelNumDiffTpl<Scalar>::get_g_lb() const {
+  return model_->get_g_lb();
+}
+
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+DifferentialActionModelNumDiffTpl<Scalar>::get_g_ub() const {
+  return model_->get_g_ub();
+}
+
 template <typename Scalar>
 bool DifferentialActionModelNumDiffTpl<Scalar>::get_with_gauss_approx() {
   return with_gauss_approx_;
-- 
2.43.0


From 42ca3153075177d7926847a5008389331671e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 56/99] fix: numdiff differential action keeps the control
 limits of the original model

---
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index e82c327..7fcbee3 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -22,6 +22,8 @@ DifferentialActionModelNumDiffTpl<Scalar>::DifferentialActionModelNumDiffTpl(
       with_gauss_approx_(with_gauss_approx),
       e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
+  this->set_u_lb(model_->get_u_lb());
+  this->set_u_ub(model_->get_u_ub());
   if (with_gauss_approx_ && nr_ == 1)
     throw_pretty("No Gauss approximation possible with nr = 1");
 }
-- 
2.43.0


From f86f722b02e7c38817c1a2916dec77c81993a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 57/99] fix: numdiff state keeps the limits of the original
 state

---
 include/crocoddyl/core/numdiff/state.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index 181e4ad..0da3b36 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -14,7 +14,10 @@ template <typename Scalar>
 StateNumDiffTpl<Scalar>::StateNumDiffTpl(std::shared_ptr<Base> state)
     : Base(state->get_nx(), state->get_ndx()),
       state_(state),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->set_lb(state_->get_lb());
+  this->set_ub(state_->get_ub());
+}
 
 template <typename Scalar>
 StateNumDiffTpl<Scalar>::~StateNumDiffTpl() {}
-- 
2.43.0


From aace7ae2d90b3fc52f53734349daae5d5e4a540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 58/99] fix: numdiff action models return the residual of the
 original model

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 ++
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 16dd57d..f85b620 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -44,6 +44,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -61,6 +62,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 7fcbee3..784cb82 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -46,6 +46,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -63,6 +64,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
-- 
2.43.0


From 68615b7d7c91935b17c1bd256ef02280c723c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 59/99] fix: compute the disturbance in the terminal
 derivatives of the numdiff residual

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From bc49091bd882563853fd02c790497d0add9678bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 60/99] fix: numdiff control parametrization returns the
 control in calc

---
 include/crocoddyl/core/numdiff/control.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
-- 
2.43.0


From a3937702b40d82a0426141605d4f9a542785645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 61/99] fix: numdiff constraint keeps the bounds and terminal
 flag of the original constraint

---
 include/crocoddyl/core/numdiff/constraint.hpp | 2 ++
 include/crocoddyl/core/numdiff/constraint.hxx | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/constraint.hpp b/include/crocoddyl/core/numdiff/constraint.hpp
index eccd5d9..26c069a 100644
--- a/include/crocoddyl/core/numdiff/constraint.hpp
+++ b/include/crocoddyl/core/numdiff/constraint.hpp
@@ -129,8 +129,10 @@ class ConstraintModelNumDiffTpl : public ConstraintModelAbstractTpl<_Scalar> {
   void set_reevals(const std::vector<ReevaluationFunction>& reevals);
 
  protected:
+  using Base::lb_;
   using Base::nu_;
   using Base::state_;
+  using Base::ub_;
   using Base::unone_;
 
  private:
diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..9c2f4c5 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -14,9 +14,12 @@ template <typename Scalar>
 ConstraintModelNumDiffTpl<Scalar>::ConstraintModelNumDiffTpl(
     const std::shared_ptr<Base>& model)
     : Base(model->get_state(), model->get_nu(), model->get_ng(),
-           model->get_nh()),
+           model->get_nh(), model->get_T_constraint()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  lb_ = model_->get_lb();
+  ub_ = model_->get_ub();
+}
 
 template <typename Scalar>
 void ConstraintModelNumDiffTpl<Scalar>::calc(
-- 
2.43.0


From b10ffc4f3a2fea620744e24097e120c4890f6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 62/99] fix: numdiff state honours the assignment operator in
 Jintegrate

---
 include/crocoddyl/core/numdiff/state.hxx | 37 +++++++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index 0da3b36..a2e041b 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -148,10 +148,12 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                          Eigen::Ref<MatrixXs> Jfirst,
                                          Eigen::Ref<MatrixXs> Jsecond,
                                          const Jcomponent firstsecond,
-                                         const AssignmentOp) const {
+                                         const AssignmentOp op) const {
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
+  assert_pretty(is_a_AssignmentOp(op),
+                ("op must be one of the AssignmentOp {settop, addto, rmfrom}"));
   if (static_cast<std::size_t>(x.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x has wrong dimension (it should be " +
@@ -165,6 +167,25 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
   VectorXs tmp_x_ = VectorXs::Zero(nx_);
   VectorXs dx_ = VectorXs::Zero(ndx_);
   VectorXs x0_ = VectorXs::Zero(nx_);
+  VectorXs xp_ = VectorXs::Zero(nx_);
+  MatrixXs J_ = MatrixXs::Zero(ndx_, ndx_);
+  const auto assign = [&J_, op](Eigen::Ref<MatrixXs> Jout) {
+    switch (op) {
+      case setto:
+        Jout = J_;
+        break;
+      case addto:
+        Jout += J_;
+        break;
+      case rmfrom:
+        Jout -= J_;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
+  };
 
   // x0_ = integrate(x, dx)
   integrate(x, dx, x0_);
@@ -178,15 +199,15 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jfirst.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = xh_jac;
       integrate(x, dx_, tmp_x_);
-      integrate(tmp_x_, dx, tmp_x_);
-      diff(x0_, tmp_x_, Jfirst.col(i));
+      integrate(tmp_x_, dx, xp_);
+      diff(x0_, xp_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jfirst /= xh_jac;
+    J_ /= xh_jac;
+    assign(Jfirst);
   }
   if (firstsecond == second || firstsecond == both) {
     const Scalar dxh_jac = e_jac_ * std::max(Scalar(1.), dx.norm());
@@ -197,14 +218,14 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jsecond.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = dxh_jac;
       integrate(x, dx + dx_, tmp_x_);
-      diff(x0_, tmp_x_, Jsecond.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jsecond /= dxh_jac;
+    J_ /= dxh_jac;
+    assign(Jsecond);
   }
 }
 
-- 
2.43.0


From 83e319e725a87b5e1ec69c13fade47f8bcc045cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:58 +0000
Subject: [PATCH 63/99] fix: transport the matrix in the numdiff state

---
 include/crocoddyl/core/numdiff/state.hxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index a2e041b..9127c10 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -241,8 +241,20 @@ StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
 
 template <typename Scalar>
 void StateNumDiffTpl<Scalar>::JintegrateTransport(
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&,
-    Eigen::Ref<MatrixXs>, const Jcomponent) const {}
+    const Eigen::Ref<const VectorXs>& x, const Eigen::Ref<const VectorXs>& dx,
+    Eigen::Ref<MatrixXs> Jin, const Jcomponent firstsecond) const {
+  assert_pretty(
+      is_a_Jcomponent(firstsecond),
+      ("firstsecond must be one of the Jcomponent {both, first, second}"));
+  if (firstsecond != first && firstsecond != second) {
+    throw_pretty(
+        "Invalid argument: firstsecond must be either first or second. both "
+        "not supported for this operation.");
+  }
+  MatrixXs J = MatrixXs::Zero(ndx_, ndx_);
+  Jintegrate(x, dx, J, J, firstsecond);
+  Jin = J * Jin;
+}
 
 template <typename Scalar>
 const Scalar StateNumDiffTpl<Scalar>::get_disturbance() const {
-- 
2.43.0


From cefb1a249625672b4be44b2ed86eb4461397544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 64/99] fix: count the constraints of the interior-point
 problem once

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..44cb6c0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 3cb810e45a558d87fb0f2ec86478ebdfacd02d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 65/99] fix: start the interior-point objective from zero

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 44cb6c0..f419dfc 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -242,6 +242,7 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
   assert_pretty(n == static_cast<Ipopt::Index>(nvar_),
                 "Inconsistent number of decision variables");
 
+  obj_value = 0.;
   // Running costs
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 7fd303c0e7ac07d6375ea37813ba50c3b8d07e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 66/99] fix: scale the terminal Hessian by the objective factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index f419dfc..a18b2c8 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -703,7 +703,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 03ca2e77cc7bbdfa5632fc0fb384054e483ad5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 67/99] fix: evaluate the nodes before the constraint Jacobian

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index a18b2c8..40da7fa 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -496,6 +496,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
-- 
2.43.0


From a5876bb935fc19afb4d4d9660271e2450658ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 68/99] fix: evaluate the nodes before the Hessian

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 40da7fa..9a3816f 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -643,6 +643,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From 937910bca983e201587fef7124760ecaf08b7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 69/99] fix: accept that Ipopt may give no statistics

---
 src/core/solvers/ipopt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index d808b2d..1f2b502 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -41,7 +41,10 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   std::copy(ipopt_iface_->get_us().begin(), ipopt_iface_->get_us().end(),
             us_.begin());
   cost_ = ipopt_iface_->get_cost();
-  iter_ = ipopt_app_->Statistics()->IterationCount();
+  // Ipopt does not provide statistics if it rejects the problem
+  iter_ = Ipopt::IsValid(ipopt_app_->Statistics())
+              ? ipopt_app_->Statistics()->IterationCount()
+              : 0;
 
   return ipopt_status_ == Ipopt::Solve_Succeeded ||
          ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
-- 
2.43.0


From 161dd9f3f15d10e2d84e5598430d9115cfe3930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 70/99] fix: keep the corrected friction-cone parameters

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index ff4f22a..639317e 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -232,12 +232,12 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_mu(const Scalar mu) {
+  mu_ = mu;
   if (mu < Scalar(0.)) {
     mu_ = Scalar(1.);
     std::cerr << "Warning: mu has to be a positive value, set to 1."
               << std::endl;
   }
-  mu_ = mu;
 }
 
 template <typename Scalar>
@@ -247,23 +247,23 @@ void FrictionConeTpl<Scalar>::set_inner_appr(const bool inner_appr) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_min_nforce(const Scalar min_nforce) {
+  min_nforce_ = min_nforce;
   if (min_nforce < Scalar(0.)) {
     min_nforce_ = Scalar(0.);
     std::cerr << "Warning: min_nforce has to be a positive value, set to 0"
               << std::endl;
   }
-  min_nforce_ = min_nforce;
 }
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_max_nforce(const Scalar max_nforce) {
+  max_nforce_ = max_nforce;
   if (max_nforce < Scalar(0.)) {
     max_nforce_ = std::numeric_limits<Scalar>::infinity();
     std::cerr << "Warning: max_nforce has to be a positive value, set to "
                  "infinity value"
               << std::endl;
   }
-  max_nforce_ = max_nforce;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 07d7a9fc64c3ddc16897585c59d9d7e242a49dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 71/99] fix: take the support rows of the wrench cone

---
 include/crocoddyl/multibody/cop-support.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0cef53c..13acc68 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -22,9 +22,9 @@ CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const WrenchConeTpl<Scalar>& other)
-    : A_(other.get_A()),
-      ub_(other.get_ub()),
-      lb_(other.get_lb()),
+    : A_(other.get_A().template middleRows<4>(other.get_nf() + 1)),
+      ub_(other.get_ub().template segment<4>(other.get_nf() + 1)),
+      lb_(other.get_lb().template segment<4>(other.get_nf() + 1)),
       R_(other.get_R()),
       box_(other.get_box()) {}
 
-- 
2.43.0


From 93e3fdb40736232d5338485f46f135d525d0fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 72/99] fix: orient the friction cone along the given normal

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index 639317e..d002ad4 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -137,7 +137,7 @@ void FrictionConeTpl<Scalar>::update(const Vector3s& normal, const Scalar mu,
         << "Warning: normal is not an unitary vector, then we normalized it"
         << std::endl;
   }
-  R_ = Quaternions::FromTwoVectors(nsurf, Vector3s::UnitZ()).toRotationMatrix();
+  R_ = Quaternions::FromTwoVectors(Vector3s::UnitZ(), nsurf).toRotationMatrix();
   set_mu(mu);
   set_inner_appr(inner_appr);
   set_min_nforce(min_nforce);
@@ -183,7 +183,7 @@ const typename MathBaseTpl<Scalar>::Matrix3s& FrictionConeTpl<Scalar>::get_R()
 
 template <typename Scalar>
 typename MathBaseTpl<Scalar>::Vector3s FrictionConeTpl<Scalar>::get_nsurf() {
-  return R_.row(2).transpose();
+  return R_.col(2);
 }
 
 template <typename Scalar>
@@ -227,7 +227,7 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
         << std::endl;
   }
   R_ =
-      Quaternions::FromTwoVectors(normal, Vector3s::UnitZ()).toRotationMatrix();
+      Quaternions::FromTwoVectors(Vector3s::UnitZ(), normal).toRotationMatrix();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 9d2ef0428b7a94a6326a20afbb97f4489f7e6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 73/99] fix: set the whole Jacobians in StateMultibody::Jdiff

---
 include/crocoddyl/multibody/states/multibody.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index e31619e..6da8ea6 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -132,6 +132,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + ")");
     }
 
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
@@ -143,6 +144,7 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jsecond.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)1;
@@ -161,8 +163,10 @@ void StateMultibodyTpl<Scalar>::Jdiff(const Eigen::Ref<const VectorXs>& x0,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
+    Jfirst.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);
+    Jsecond.setZero();
     pinocchio::dDifference(*pinocchio_.get(), x0.head(nq_), x1.head(nq_),
                            Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1);
     Jfirst.bottomRightCorner(nv_, nv_).diagonal().array() = (Scalar)-1;
-- 
2.43.0


From f9c47007780ab601fceec292b319b716e6068c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 74/99] fix: set the whole Jacobians in
 StateMultibody::Jintegrate

---
 include/crocoddyl/multibody/states/multibody.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index 6da8ea6..2ce4cea 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -196,6 +196,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0,
                               pinocchio::SETTO);
@@ -229,6 +230,7 @@ void StateMultibodyTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         pinocchio::dIntegrate(*pinocchio_.get(), x.head(nq_), dx.head(nv_),
                               Jsecond.topLeftCorner(nv_, nv_), pinocchio::ARG1,
                               pinocchio::SETTO);
-- 
2.43.0


From b3c4d54f4dfca5a72edef72a91fba81a08ffd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 75/99] fix: replace the thrust map in set_thrusters

---
 .../crocoddyl/multibody/actuations/floating-base-thrusters.hpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index ccc5c60..59e3533 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -302,6 +302,7 @@ class ActuationModelFloatingBaseThrustersTpl
     }
     thrusters_ = thrusters;
     // Update the mapping matrix from thrusters thrust to body force/moments
+    W_thrust_.template topRows<6>().leftCols(n_thrusters_).setZero();
     for (std::size_t i = 0; i < n_thrusters_; ++i) {
       const Thruster& p = thrusters_[i];
       const Vector3s& f_z = p.pose.rotation() * Vector3s::UnitZ();
-- 
2.43.0


From 94bf99e82d5a24ec8767cc625dcffd8f55825210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:32 +0000
Subject: [PATCH 76/99] fix: keep the limits of a multibody state in its cast

---
 include/crocoddyl/multibody/states/multibody.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/multibody/states/multibody.hxx b/include/crocoddyl/multibody/states/multibody.hxx
index 2ce4cea..37faed5 100644
--- a/include/crocoddyl/multibody/states/multibody.hxx
+++ b/include/crocoddyl/multibody/states/multibody.hxx
@@ -296,6 +296,8 @@ StateMultibodyTpl<NewScalar> StateMultibodyTpl<Scalar>::cast() const {
   typedef pinocchio::ModelTpl<NewScalar> ModelType;
   ReturnType res(
       std::make_shared<ModelType>(pinocchio_->template cast<NewScalar>()));
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 3df1b7079246ca842cc11924c5bfd43013f19b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 77/99] fix: use the current thrusters with every actuation
 data

---
 .../actuations/floating-base-thrusters.hpp    | 21 ++++---------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index 59e3533..0ce3cbb 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -170,8 +170,7 @@ class ActuationModelFloatingBaseThrustersTpl
                  thrusters.size()),
         thrusters_(thrusters),
         n_thrusters_(thrusters.size()),
-        W_thrust_(state_->get_nv(), nu_),
-        update_data_(true) {
+        W_thrust_(state_->get_nv(), nu_) {
     if (!state->get_pinocchio()->existJointName("root_joint")) {
       throw_pretty(
           "Invalid argument: "
@@ -205,9 +204,7 @@ class ActuationModelFloatingBaseThrustersTpl
           "Invalid argument: " << "u has wrong dimension (it should be " +
                                       std::to_string(nu_) + ")");
     }
-    if (update_data_) {
-      updateData(data);
-    }
+    updateData(data);
     data->tau.noalias() = data->dtau_du * u;
   }
 
@@ -236,20 +233,13 @@ class ActuationModelFloatingBaseThrustersTpl
   virtual void commands(const std::shared_ptr<Data>& data,
                         const Eigen::Ref<const VectorXs>&,
                         const Eigen::Ref<const VectorXs>& tau) override {
-    data->u.noalias() = data->Mtau * tau;
+    data->u.noalias() = Mtau_ * tau;
   }
 
-#ifndef NDEBUG
   virtual void torqueTransform(const std::shared_ptr<Data>& data,
                                const Eigen::Ref<const VectorXs>&,
                                const Eigen::Ref<const VectorXs>&) override {
-#else
-  virtual void torqueTransform(const std::shared_ptr<Data>&,
-                               const Eigen::Ref<const VectorXs>&,
-                               const Eigen::Ref<const VectorXs>&) override {
-#endif
-    // The torque transform has constant values which were set in createData.
-    assert_pretty(MatrixXs(data->Mtau).isApprox(Mtau_), "Mtau has wrong value");
+    updateData(data);
   }
 
   /**
@@ -322,7 +312,6 @@ class ActuationModelFloatingBaseThrustersTpl
     // torque inputs
     Mtau_ = pseudoInverse(W_thrust_);
     S_.noalias() = W_thrust_ * Mtau_;
-    update_data_ = true;
   }
 
   const MatrixXs& get_Wthrust() const { return W_thrust_; }
@@ -346,7 +335,6 @@ class ActuationModelFloatingBaseThrustersTpl
                    //!< joint torque inputs
   MatrixXs S_;     //!< Selection matrix for under-actuation part
 
-  bool update_data_;
   using Base::nu_;
   using Base::state_;
 
@@ -358,7 +346,6 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t k = 0; k < nv; ++k) {
       data->tau_set[k] = if_static(S_(k, k));
     }
-    update_data_ = false;
   }
 
   // Use for floating-point types
-- 
2.43.0


From 48ceb4752492970186e625fb5942edbf1366232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 78/99] fix: keep the contact dimension when an inactive
 contact is removed

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 3534be4..0978c8e 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -60,7 +60,9 @@ template <typename Scalar>
 void ContactModelMultipleTpl<Scalar>::removeContact(const std::string& name) {
   typename ContactModelContainer::iterator it = contacts_.find(name);
   if (it != contacts_.end()) {
-    nc_ -= it->second->contact->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->contact->get_nc();
+    }
     nc_total_ -= it->second->contact->get_nc();
     contacts_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 4f8beeaa7da9bd31a3cb1de632eb6dc670a8e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 79/99] fix: keep the impulse dimension when an inactive
 impulse is removed

---
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index a4efe87..748b4b7 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -41,7 +41,9 @@ template <typename Scalar>
 void ImpulseModelMultipleTpl<Scalar>::removeImpulse(const std::string& name) {
   typename ImpulseModelContainer::iterator it = impulses_.find(name);
   if (it != impulses_.end()) {
-    nc_ -= it->second->impulse->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->impulse->get_nc();
+    }
     nc_total_ -= it->second->impulse->get_nc();
     impulses_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 2a1a1ec4fd5c467709f5d1f82edc8bdf27fbbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 80/99] fix: add the forces of contacts on the same body

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 0978c8e..ee9fc57 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -254,7 +254,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
       } else {
         m_i->contact->setZeroForce(d_i);
       }
@@ -275,7 +275,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
         nc += nc_i;
       } else {
         m_i->contact->setZeroForce(d_i);
-- 
2.43.0


From 059e7e2c9c4891b605f12f9ff43163367d50bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 81/99] fix: add the forces of impulses on the same body

---
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index 748b4b7..f9cc3af 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -183,7 +183,7 @@ void ImpulseModelMultipleTpl<Scalar>::updateForce(
       m_i->impulse->updateForce(d_i, force_i);
       const pinocchio::JointIndex joint =
           state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-      data->fext[joint] = d_i->fext;
+      data->fext[joint] += d_i->fext;
       nc += nc_i;
     } else {
       m_i->impulse->setZeroForce(d_i);
-- 
2.43.0


From 5fe2557c7b88ede1565f61290febbf1d5d4250f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 82/99] fix: keep the computation of all contacts in a cast

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index ee9fc57..8de0874 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -427,6 +427,7 @@ ContactModelMultipleTpl<NewScalar> ContactModelMultipleTpl<Scalar>::cast()
     const ContactType& m_i = it_m->second->template cast<NewScalar>();
     ret.addContact(name, m_i.contact, m_i.active);
   }
+  ret.setComputeAllContacts(compute_all_contacts_);
   return ret;
 }
 
-- 
2.43.0


From 54334c5d56a71fa54712da80f9d30bea4a4e32e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 83/99] fix: store the force of a 2d contact in its own
 coordinates

---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index d4e1d8e..7b07d70 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -134,7 +134,7 @@ void ContactModel2DTpl<Scalar>::updateForce(
   }
   Data* d = static_cast<Data*>(data.get());
   const Eigen::Ref<const Matrix3s> R = d->jMf.rotation();
-  data->f.linear() = R.col(0) * force[0] + R.col(2) * force[1];
+  data->f.linear() = Vector3s(force[0], Scalar(0.), force[1]);
   data->f.angular().setZero();
   data->fext.linear() = R.col(0) * force[0] + R.col(2) * force[1];
   data->fext.angular() = d->jMf.translation().cross(data->fext.linear());
-- 
2.43.0


From e6855383b98a6218a10c82e36b1da7a2bbeceba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 84/99] fix: differentiate the position of a 2d contact in
 every direction

---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index 7b07d70..eff37ce 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -111,7 +111,10 @@ void ContactModel2DTpl<Scalar>::calcDiff(
     d->oRf(1, 0) = oRf(2, 0);
     d->oRf(0, 1) = oRf(0, 2);
     d->oRf(1, 1) = oRf(2, 2);
-    d->da0_dx.leftCols(nv).noalias() += gains_[0] * d->oRf * d->Jc;
+    d->da0_dx.leftCols(nv).row(0).noalias() +=
+        gains_[0] * oRf.row(0) * d->fJf.template topRows<3>();
+    d->da0_dx.leftCols(nv).row(1).noalias() +=
+        gains_[0] * oRf.row(2) * d->fJf.template topRows<3>();
   }
   if (gains_[1] != 0.) {
     d->da0_dx.leftCols(nv).row(0).noalias() +=
-- 
2.43.0


From 7aedc7ade5c16646b4044a0c5c4f71d8798576d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 85/99] fix: use aligned coordinates for the derivative of a 6d
 impulse

---
 include/crocoddyl/multibody/impulses/impulse-6d.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/impulse-6d.hxx b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
index c617b8b..61e1784 100644
--- a/include/crocoddyl/multibody/impulses/impulse-6d.hxx
+++ b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
@@ -61,7 +61,8 @@ void ImpulseModel6DTpl<Scalar>::calcDiff(
     case pinocchio::ReferenceFrame::LOCAL_WORLD_ALIGNED:
       const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
       d->v0 = pinocchio::getFrameVelocity(*state_->get_pinocchio().get(),
-                                          *d->pinocchio, id_, type_);
+                                          *d->pinocchio, id_,
+                                          pinocchio::LOCAL_WORLD_ALIGNED);
       pinocchio::skew(d->v0.linear(), d->vv_skew);
       pinocchio::skew(d->v0.angular(), d->vw_skew);
       d->vv_world_skew.noalias() = d->vv_skew * oRf;
-- 
2.43.0


From d916762037385842b81263772b4774797e7479d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 86/99] fix: differentiate impulse dynamics with restitution
 and armature

---
 .../crocoddyl/multibody/actions/impulse-fwddyn.hxx   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index c16a94a..78e04df 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -266,7 +266,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->Kinv);
 
   pinocchio::computeForwardKinematicsDerivatives(
-      *pinocchio_, data->pinocchio, q, data->pinocchio.dq_after, data->vnone);
+      *pinocchio_, data->pinocchio, q,
+      data->pinocchio.dq_after + r_coeff_ * v, data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
 
@@ -285,8 +286,10 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       -a_partial_dtau * data->pinocchio.dtau_dq;
   data->Fx.bottomLeftCorner(nv, nv).noalias() -=
       a_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
-  data->Fx.bottomRightCorner(nv, nv).noalias() =
-      a_partial_dtau * data->pinocchio.M;
+  data->Fx.bottomRightCorner(nv, nv).setIdentity();
+  data->Fx.bottomRightCorner(nv, nv).noalias() -=
+      (Scalar(1.) + r_coeff_) * a_partial_da *
+      data->multibody.impulses->Jc.topRows(nc);
 
   // Computing the cost derivatives
   if (enable_force_) {
@@ -295,7 +298,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
     data->df_dx.topLeftCorner(nc, nv).noalias() +=
         f_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
     data->df_dx.topRightCorner(nc, nv).noalias() =
-        f_partial_da * data->multibody.impulses->Jc.topRows(nc);
+        (Scalar(1.) + r_coeff_) * f_partial_da *
+        data->multibody.impulses->Jc.topRows(nc);
     impulses_->updateVelocityDiff(data->multibody.impulses,
                                   data->Fx.bottomRows(nv));
     impulses_->updateForceDiff(data->multibody.impulses,
-- 
2.43.0


From 81168f1e483e0b04eda27d700bedda370f2f5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 87/99] fix: differentiate the costs of an impulse at the
 velocity before it

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 78e04df..5e1d916 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -270,6 +270,10 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->pinocchio.dq_after + r_coeff_ * v, data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
+  // The cost and constraint functions are defined at the velocity before the
+  // impact
+  pinocchio::computeForwardKinematicsDerivatives(*pinocchio_, data->pinocchio,
+                                                 q, v, data->vnone);
 
   Eigen::Block<MatrixXs> a_partial_dtau = data->Kinv.topLeftCorner(nv, nv);
   Eigen::Block<MatrixXs> a_partial_da = data->Kinv.topRightCorner(nv, nc);
-- 
2.43.0


From 3ef31540ed2ffadebc2274c59adacb0f0fc6483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 88/99] fix: keep the armature when casting forward dynamics

---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 6 ++++++
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 6 ++++++
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index 04793bf..f461dca 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -280,6 +280,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -288,6 +291,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 723d2f0..777f484 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -197,12 +197,18 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
         std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 5e1d916..c66f6f9 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -158,6 +158,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -166,6 +169,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
-- 
2.43.0


From ac9f5c49f95b93efb3340af8f8ae29bd0e0f3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 89/99] fix: use the rows of active contacts in the
 quasi-static inputs of inverse dynamics

---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index b3d60be..4e9b398 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -312,10 +312,11 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::quasiStatic(
   contacts_->calc(d->multibody.contacts, d->tmp_xstatic);
   contacts_->setComputeAllContacts(true);
 
-  d->tmp_Jstatic.conservativeResize(nv, nu + nc);
+  const std::size_t nc_active = contacts_->get_nc();
+  d->tmp_Jstatic.conservativeResize(nv, nu + nc_active);
   d->tmp_Jstatic.leftCols(nu) = d->multibody.actuation->dtau_du;
-  d->tmp_Jstatic.rightCols(nc) =
-      d->multibody.contacts->Jc.topRows(nc).transpose();
+  d->tmp_Jstatic.rightCols(nc_active) =
+      d->multibody.contacts->Jc.topRows(nc_active).transpose();
   d->tmp_rstatic.noalias() = pseudoInverse(d->tmp_Jstatic) * d->pinocchio.tau;
   if (nc != 0) {
     nc = 0;
-- 
2.43.0


From 2a970f17346db1dfdb08c5a5163b9b5317907f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 90/99] fix: report the forces of inactive contacts when all
 contacts are computed

---
 .../crocoddyl/multibody/contacts/multiple-contacts.hxx   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 8de0874..1c0301f 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -248,15 +248,16 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
       assert_pretty(it_m->first == it_d->first,
                     "it doesn't match the contact name between data and model");
       const std::size_t nc_i = m_i->contact->get_nc();
+      const Eigen::VectorBlock<const VectorXs, Eigen::Dynamic> force_i =
+          force.segment(nc, nc_i);
+      m_i->contact->updateForce(d_i, force_i);
       if (m_i->active) {
-        const Eigen::VectorBlock<const VectorXs, Eigen::Dynamic> force_i =
-            force.segment(nc, nc_i);
-        m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
         data->fext[joint] += d_i->fext;
       } else {
-        m_i->contact->setZeroForce(d_i);
+        // An inactive contact does not act on the robot
+        d_i->fext.setZero();
       }
       nc += nc_i;
     }
-- 
2.43.0


From ffd6dff66d271dcea6a18337e5d8911966f8d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 91/99] fix: compute the center of mass in free forward
 dynamics

---
 include/crocoddyl/multibody/actions/free-fwddyn.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 777f484..9db5186 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -65,6 +65,7 @@ void DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::calc(
     d->xout = pinocchio::aba(*pinocchio_, d->pinocchio, q, v,
                              d->multibody.actuation->tau);
     pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
+    pinocchio::centerOfMass(*pinocchio_, d->pinocchio, q, v);
   } else {
     pinocchio::computeAllTerms(*pinocchio_, d->pinocchio, q, v);
     d->pinocchio.M.diagonal() += armature_;
@@ -140,6 +141,7 @@ void DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::calcDiff(
     pinocchio::computeABADerivatives(
         *pinocchio_, d->pinocchio, q, v, d->multibody.actuation->tau,
         d->Fx.leftCols(nv), d->Fx.rightCols(nv), d->pinocchio.Minv);
+    pinocchio::jacobianCenterOfMass(*pinocchio_, d->pinocchio, false);
     d->Fx.noalias() += d->pinocchio.Minv * d->multibody.actuation->dtau_dx;
     d->Fu.noalias() = d->pinocchio.Minv * d->multibody.actuation->dtau_du;
   } else {
-- 
2.43.0


From 315b9a5d2a5bf28adb07e7d2cac9a49a8ea3c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 92/99] fix: compute the centroidal momentum in free forward
 dynamics

---
 include/crocoddyl/multibody/actions/free-fwddyn.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 9db5186..98f7786 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -75,6 +75,7 @@ void DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::calc(
     d->u_drift = d->multibody.actuation->tau - d->pinocchio.nle;
     d->xout.noalias() = d->Minv * d->u_drift;
   }
+  pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   d->multibody.joint->a = d->xout;
   d->multibody.joint->tau = u;
   costs_->calc(d->costs, x, u);
-- 
2.43.0


From 938e9c625951183c745ecd4101325ec8ab575e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 93/99] fix: compute the center of mass and momentum in inverse
 dynamics

---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 1 +
 include/crocoddyl/multibody/actions/free-invdyn.hxx    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index 4e9b398..f6263b2 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -151,6 +151,7 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::calc(
   pinocchio::rnea(*pinocchio_, d->pinocchio, q, v, a,
                   d->multibody.contacts->fext);
   pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
+  pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
   pinocchio::centerOfMass(*pinocchio_, d->pinocchio, q, v, a);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
   d->multibody.joint->a = a;
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index 6a30f4d..3464b75 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -100,6 +100,8 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::calc(
   d->xout = u;
   pinocchio::rnea(*pinocchio_, d->pinocchio, q, v, u);
   pinocchio::updateGlobalPlacements(*pinocchio_, d->pinocchio);
+  pinocchio::computeCentroidalMomentum(*pinocchio_, d->pinocchio);
+  pinocchio::centerOfMass(*pinocchio_, d->pinocchio, q, v, u);
   actuation_->commands(d->multibody.actuation, x, d->pinocchio.tau);
   d->multibody.joint->a = u;
   d->multibody.joint->tau = d->multibody.actuation->u;
@@ -159,6 +161,7 @@ void DifferentialActionModelFreeInvDynamicsTpl<Scalar>::calcDiff(
   d->pinocchio.M.template triangularView<Eigen::StrictlyLower>() =
       d->pinocchio.M.template triangularView<Eigen::StrictlyUpper>()
           .transpose();
+  pinocchio::jacobianCenterOfMass(*pinocchio_, d->pinocchio, false);
   actuation_->calcDiff(d->multibody.actuation, x, d->multibody.joint->tau);
   actuation_->torqueTransform(d->multibody.actuation, x,
                               d->multibody.joint->tau);
-- 
2.43.0


From 6a5819477626985eb49f4c6a065746522e866a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 94/99] fix: clear frame Jacobians of residuals before they are
 filled

---
 include/crocoddyl/multibody/residuals/frame-placement.hxx   | 1 +
 include/crocoddyl/multibody/residuals/frame-rotation.hxx    | 1 +
 include/crocoddyl/multibody/residuals/frame-translation.hxx | 1 +
 include/crocoddyl/multibody/residuals/frame-velocity.hxx    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/multibody/residuals/frame-placement.hxx b/include/crocoddyl/multibody/residuals/frame-placement.hxx
index 997831a..bc9ec7f 100644
--- a/include/crocoddyl/multibody/residuals/frame-placement.hxx
+++ b/include/crocoddyl/multibody/residuals/frame-placement.hxx
@@ -63,6 +63,7 @@ void ResidualModelFramePlacementTpl<Scalar>::calcDiff(
   // Compute the derivatives of the frame placement
   const std::size_t nv = state_->get_nv();
   pinocchio::Jlog6(d->rMf, d->rJf);
+  d->fJf.setZero();  // it fills only the columns of the supporting joints
   pinocchio::getFrameJacobian(*pin_model_.get(), *d->pinocchio, id_,
                               pinocchio::LOCAL, d->fJf);
   data->Rx.leftCols(nv).noalias() = d->rJf * d->fJf;
diff --git a/include/crocoddyl/multibody/residuals/frame-rotation.hxx b/include/crocoddyl/multibody/residuals/frame-rotation.hxx
index ed0709c..457ccb2 100644
--- a/include/crocoddyl/multibody/residuals/frame-rotation.hxx
+++ b/include/crocoddyl/multibody/residuals/frame-rotation.hxx
@@ -63,6 +63,7 @@ void ResidualModelFrameRotationTpl<Scalar>::calcDiff(
 
   // Compute the frame Jacobian at the error point
   pinocchio::Jlog3(d->rRf, d->rJf);
+  d->fJf.setZero();  // it fills only the columns of the supporting joints
   pinocchio::getFrameJacobian(*pin_model_.get(), *d->pinocchio, id_,
                               pinocchio::LOCAL, d->fJf);
 
diff --git a/include/crocoddyl/multibody/residuals/frame-translation.hxx b/include/crocoddyl/multibody/residuals/frame-translation.hxx
index 1825835..d3a4e6e 100644
--- a/include/crocoddyl/multibody/residuals/frame-translation.hxx
+++ b/include/crocoddyl/multibody/residuals/frame-translation.hxx
@@ -59,6 +59,7 @@ void ResidualModelFrameTranslationTpl<Scalar>::calcDiff(
 
   // Compute the derivatives of the frame translation
   const std::size_t nv = state_->get_nv();
+  d->fJf.setZero();  // it fills only the columns of the supporting joints
   pinocchio::getFrameJacobian(*pin_model_.get(), *d->pinocchio, id_,
                               pinocchio::LOCAL, d->fJf);
   d->Rx.leftCols(nv).noalias() =
diff --git a/include/crocoddyl/multibody/residuals/frame-velocity.hxx b/include/crocoddyl/multibody/residuals/frame-velocity.hxx
index 3fe4557..3cc3155 100644
--- a/include/crocoddyl/multibody/residuals/frame-velocity.hxx
+++ b/include/crocoddyl/multibody/residuals/frame-velocity.hxx
@@ -64,6 +64,7 @@ void ResidualModelFrameVelocityTpl<Scalar>::calcDiff(
   // Get the partial derivatives of the local frame velocity
   Data* d = static_cast<Data*>(data.get());
   const std::size_t nv = state_->get_nv();
+  data->Rx.setZero();  // it fills only the columns of the supporting joints
   pinocchio::getFrameVelocityDerivatives(*pin_model_.get(), *d->pinocchio, id_,
                                          type_, data->Rx.leftCols(nv),
                                          data->Rx.rightCols(nv));
-- 
2.43.0


From 49f7f27004f722aa4eea488b16eeae7848083954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 95/99] fix: update the derivatives of contact residuals in
 every data

---
 .../multibody/residuals/contact-cop-position.hpp          | 1 -
 .../multibody/residuals/contact-cop-position.hxx          | 8 +-------
 include/crocoddyl/multibody/residuals/contact-force.hpp   | 1 -
 include/crocoddyl/multibody/residuals/contact-force.hxx   | 8 +-------
 .../multibody/residuals/contact-friction-cone.hpp         | 1 -
 .../multibody/residuals/contact-friction-cone.hxx         | 8 +-------
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hpp | 1 -
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hxx | 8 +-------
 8 files changed, 4 insertions(+), 32 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
index baa03f5..ffac803 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
@@ -248,7 +248,6 @@ class ResidualModelContactCoPPositionTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
                               //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   CoPSupport cref_;           //!< Reference support region of CoP
diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index dd38c78..fa54b6e 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -15,7 +15,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref, const std::size_t nu, const bool fwddyn)
     : Base(state, 4, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -25,7 +24,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref)
     : Base(state, 4),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -50,9 +48,7 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -84,7 +80,6 @@ void ResidualModelContactCoPPositionTpl<Scalar>::updateJacobians(
   const Matrix46& A = cref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -137,7 +132,6 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::set_reference(
     const CoPSupport& reference) {
   cref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-force.hpp b/include/crocoddyl/multibody/residuals/contact-force.hpp
index 953e548..b6c1774 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-force.hpp
@@ -237,7 +237,6 @@ class ResidualModelContactForceTpl : public ResidualModelAbstractTpl<_Scalar> {
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
                               //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   Force fref_;  //!< Reference spatial contact force in the contact coordinates
diff --git a/include/crocoddyl/multibody/residuals/contact-force.hxx b/include/crocoddyl/multibody/residuals/contact-force.hxx
index 28096aa..d61f269 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-force.hxx
@@ -18,7 +18,6 @@ ResidualModelContactForceTpl<Scalar>::ResidualModelContactForceTpl(
     const bool fwddyn)
     : Base(state, nc, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (nc > 6) {
@@ -40,7 +39,6 @@ ResidualModelContactForceTpl<Scalar>::ResidualModelContactForceTpl(
     const Force& fref, const std::size_t nc)
     : Base(state, nc),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (nc > 6) {
@@ -89,9 +87,7 @@ template <typename Scalar>
 void ResidualModelContactForceTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -136,7 +132,6 @@ void ResidualModelContactForceTpl<Scalar>::updateJacobians(
     default:
       break;
   }
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -188,7 +183,6 @@ template <typename Scalar>
 void ResidualModelContactForceTpl<Scalar>::set_reference(
     const Force& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
index a181476..53336fc 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
@@ -224,7 +224,6 @@ class ResidualModelContactFrictionConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
                               //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   FrictionCone fref_;         //!< Reference contact friction cone
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
index 73fdcd7..fb4d6ea 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
@@ -20,7 +20,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
     : Base(state, fref.get_nf() + 1, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -38,7 +37,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
                                         const FrictionCone& fref)
     : Base(state, fref.get_nf() + 1),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -71,9 +69,7 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -121,7 +117,6 @@ void ResidualModelContactFrictionConeTpl<Scalar>::updateJacobians(
     default:
       break;
   }
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -173,7 +168,6 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::set_reference(
     const FrictionCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
index 7c7031a..8621f69 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
@@ -232,7 +232,6 @@ class ResidualModelContactWrenchConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
                               //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   WrenchCone fref_;           //!< Reference contact wrench cone
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
index a57e3d1..2f9e98e 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
@@ -17,7 +17,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     : Base(state, fref.get_nf() + 13, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -34,7 +33,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     const WrenchCone& fref)
     : Base(state, fref.get_nf() + 13),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -67,9 +65,7 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -101,7 +97,6 @@ void ResidualModelContactWrenchConeTpl<Scalar>::updateJacobians(
   const MatrixX6s& A = fref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -154,7 +149,6 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::set_reference(
     const WrenchCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From dfb5e0dbf9aa19542bcf07addf7906a0e90d1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 96/99] fix: reject frames that do not exist in the
 center-of-pressure residual

---
 .../residuals/contact-cop-position.hxx         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index fa54b6e..cbae18e 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -16,7 +16,14 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     : Base(state, 4, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
       id_(id),
-      cref_(cref) {}
+      cref_(cref) {
+  if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
+      id) {
+    throw_pretty(
+        "Invalid argument: "
+        << "the frame index is wrong (it does not exist in the robot)");
+  }
+}
 
 template <typename _Scalar>
 ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
@@ -25,7 +32,14 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     : Base(state, 4),
       fwddyn_(true),
       id_(id),
-      cref_(cref) {}
+      cref_(cref) {
+  if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
+      id) {
+    throw_pretty(
+        "Invalid argument: "
+        << "the frame index is wrong (it does not exist in the robot)");
+  }
+}
 
 template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calc(
-- 
2.43.0


From 1e96439a3d708b5ff7dc2577791adb72e012eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:11 +0000
Subject: [PATCH 97/99] fix: IntegratedActionModelRK::quasiStatic starts from
 zero control

---
 include/crocoddyl/core/integrator/rk.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 69d9d5b..cc3bd54 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -388,7 +388,7 @@ void IntegratedActionModelRKTpl<Scalar>::quasiStatic(
   Data* d = static_cast<Data*>(data.get());
   const std::shared_ptr<ControlParametrizationDataAbstract>& u0_data =
       d->control[0];
-  u0_data->w *= Scalar(0.);
+  u0_data->w.setZero();
   differential_->quasiStatic(d->differential[0], u0_data->w, x, maxiter, tol);
   control_->params(u0_data, Scalar(0.), u0_data->w);
   u = u0_data->u;
-- 
2.43.0


From 3c72f80360271b8a0d6c4bac616a3fece675c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:26 +0000
Subject: [PATCH 98/99] fix: hand the Jacobian and the forces of a contact to
 its numerical differentiation's data

---
 include/crocoddyl/multibody/numdiff/contact.hpp | 9 +++++++++
 include/crocoddyl/multibody/numdiff/contact.hxx | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/numdiff/contact.hpp b/include/crocoddyl/multibody/numdiff/contact.hpp
index 406a5bb..33a1297 100644
--- a/include/crocoddyl/multibody/numdiff/contact.hpp
+++ b/include/crocoddyl/multibody/numdiff/contact.hpp
@@ -147,6 +147,9 @@ struct ContactDataNumDiffTpl : public ContactDataAbstractTpl<_Scalar> {
 
     const std::size_t ndx = model->get_model()->get_state()->get_ndx();
     data_0 = model->get_model()->createData(data);
+    frame = data_0->frame;
+    jMf = data_0->jMf;
+    fXj = data_0->fXj;
     for (std::size_t i = 0; i < ndx; ++i) {
       data_x.push_back(model->get_model()->createData(data));
     }
@@ -156,7 +159,13 @@ struct ContactDataNumDiffTpl : public ContactDataAbstractTpl<_Scalar> {
 
   using Base::a0;
   using Base::da0_dx;
+  using Base::dtau_dq;
   using Base::f;
+  using Base::fext;
+  using Base::frame;
+  using Base::fXj;
+  using Base::Jc;
+  using Base::jMf;
   using Base::pinocchio;
 
   Scalar x_norm;  //!< Norm of the state vector
diff --git a/include/crocoddyl/multibody/numdiff/contact.hxx b/include/crocoddyl/multibody/numdiff/contact.hxx
index fa472b5..45aacf4 100644
--- a/include/crocoddyl/multibody/numdiff/contact.hxx
+++ b/include/crocoddyl/multibody/numdiff/contact.hxx
@@ -17,7 +17,9 @@ ContactModelNumDiffTpl<Scalar>::ContactModelNumDiffTpl(
     : Base(model->get_state(), model->get_type(), model->get_nc(),
            model->get_nu()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->set_id(model_->get_id());
+}
 
 template <typename Scalar>
 void ContactModelNumDiffTpl<Scalar>::calc(
@@ -26,6 +28,7 @@ void ContactModelNumDiffTpl<Scalar>::calc(
   std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
   model_->calc(d->data_0, x);
   d->a0 = d->data_0->a0;
+  d->Jc = d->data_0->Jc;
 }
 
 template <typename Scalar>
@@ -68,6 +71,9 @@ void ContactModelNumDiffTpl<Scalar>::updateForce(
   std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
 
   model_->updateForce(d->data_0, force);
+  d->f = d->data_0->f;
+  d->fext = d->data_0->fext;
+  d->dtau_dq = d->data_0->dtau_dq;
 }
 
 template <typename Scalar>
-- 
2.43.0


From caa44abc5455cb597e3e181d07227228121c02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:26 +0000
Subject: [PATCH 99/99] fix: pseudo-inverse of empty matrices

---
 include/crocoddyl/core/utils/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/utils/math.hpp b/include/crocoddyl/core/utils/math.hpp
index bb19ebf..124af63 100644
--- a/include/crocoddyl/core/utils/math.hpp
+++ b/include/crocoddyl/core/utils/math.hpp
@@ -46,6 +46,9 @@ struct pseudoInverseAlgo {
   static MatrixLike run(const Eigen::MatrixBase<MatrixLike>& a,
                         const RealScalar& epsilon) {
     using std::max;
+    if (a.size() == 0) {
+      return MatrixLike::Zero(a.cols(), a.rows());
+    }
     Eigen::JacobiSVD<MatrixLike> svd(a,
                                      Eigen::ComputeThinU | Eigen::ComputeThinV);
     RealScalar tolerance = epsilon *
-- 
2.43.0


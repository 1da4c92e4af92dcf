From 89a55144541fc1576b8a13aa18c9afe0be456e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 01/27] fix: test convergence before replacing the multipliers
 it was measured at

---
 include/proxsuite-nlp/prox-solver.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..5048293 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -91,6 +91,12 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    // the residuals are those of the current primal-dual pair: test them before
+    // the multipliers are replaced
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -98,10 +104,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From 6f6e1061b05804d21a1534362d5ad67b0b1bde97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 02/27] fix: center the proximal penalty at the starting point
 of each solve

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 5048293..a7f23eb 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From 777a51d409959501f3dec421ed5d749febc652ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 03/27] fix: check the KKT matrix for NaN once it is assembled,
 not before

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index a7f23eb..256b09a 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -351,7 +351,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -393,6 +392,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 457cb62b765847f0f0b4f20191b6f690267b4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 04/27] fix: pair each cubic interpolation condition with its
 own sample

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..21a1b37 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -187,8 +187,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From 0c63ee6e42fbe26adcad8fd2600224095ab8894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 05/27] fix: return from the line search the step its merit
 value was obtained at

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 21a1b37..abb99ce 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -74,6 +74,8 @@ public:
         alpha_try *= 0.5;
         if (alpha_try <= options_.alpha_min) {
           alpha_try = options_.alpha_min;
+          // last resort: a failure here is left to the caller
+          latest = FunctionSample(alpha_try, phi(alpha_try));
           break;
         }
       }
@@ -86,7 +88,7 @@ public:
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (dM <= options_.armijo_c1 * latest.alpha * dphi0) {
         break;
       }
 
@@ -126,10 +128,9 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * latest.alpha;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
         previous = latest;
@@ -142,7 +143,8 @@ public:
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // return the step the merit value was obtained at
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From 24979be55d86a04f3270a37bc6b7eb828907e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 06/27] fix: hand the prox parameter of a product set to its
 components

---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..7cbbfbb 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -61,6 +61,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
     return res;
   }
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (std::size_t i = 0; i < m_components.size(); i++) {
+      m_components[i]->setProxParameter(mu);
+    }
+  }
+
   void projection(const ConstVectorRef &z, VectorRef zout) const override {
     for (std::size_t i = 0; i < m_components.size(); i++) {
       ConstVectorRef inblock = blockVectorGetRow(z, m_blockSizes, i);
-- 
2.43.0


From a3c48d3ba0b5c5b4e94b3bc9ecc96e87d47bc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 07/27] fix: quadratic residual cost derivatives use the
 residual at the point given, not that of the last value call

---
 .../proxsuite-nlp/modelling/costs/quadratic-residual.hxx   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..1ec783f 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,10 +48,10 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
-  tmp_w_err.noalias() = weights_ * err;
-  tmp_w_err += slope_;
-
   if (!gauss_newton_) {
+    err = (*residual_)(x);
+    tmp_w_err.noalias() = weights_ * err;
+    tmp_w_err += slope_;
     residual_->vectorHessianProduct(x, tmp_w_err, H);
     out = H;
   } else {
-- 
2.43.0


From 92d25b0a1ed5946f1216a6ddbbc3201aaf34594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 08/27] fix: a product manifold is normalized only if every
 component is

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From cbf7125ae4b4a1b49125c9decdaa5327d93ab29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 09/27] fix: keep the order of the factors in (manifold *
 product)

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..2448fc7 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,7 +139,10 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
-- 
2.43.0


From c3597d32bf7958a0b87990bb201a6268e60ed77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 10/27] fix: interpolate the tangent part of tangent bundle
 elements, not their base point

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..2f46e93 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -85,7 +85,7 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
   out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+      (Scalar(1.) - u) * x0.tail(base_.ndx()) + u * x1.tail(base_.ndx());
 }
 
 } // namespace nlp
-- 
2.43.0


From cf4d7fba32587218f8a254a66f8558c0b4986802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 11/27] fix: history callback: do not index the empty
 line-search vectors

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..ba3db15 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -49,9 +49,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From bf1c38ec2300942ad40378bd57c0390650f5679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 12/27] fix: history callback: multiplier views refer to the
 recorded copy

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index ba3db15..69828a0 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -39,7 +39,17 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     if (store_primal_dual_vars_) {
       storage.xs.push_back(results.x_opt);
       storage.lams.push_back(results.data_lams_opt);
-      storage.lams_view.push_back(results.lams_opt);
+      // views on the copy just stored: the results keep changing, and may be
+      // destroyed
+      VectorXs &lams = storage.lams.back();
+      VectorOfRef views;
+      views.reserve(results.lams_opt.size());
+      long start = 0;
+      for (const auto &lam : results.lams_opt) {
+        views.push_back(lams.segment(start, lam.size()));
+        start += lam.size();
+      }
+      storage.lams_view.push_back(views);
     }
     if (store_values_)
       storage.values.push_back(results.value);
-- 
2.43.0


From 8150ce7e8b5817ad13cdae863c4f0d076e7580cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 13/27] fix: initialise the step length of the workspace

---
 include/proxsuite-nlp/workspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index 863581d..9497e4d 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -114,7 +114,7 @@ public:
   std::vector<Scalar> ls_alphas;
   std::vector<Scalar> ls_values;
   /// Optimal linesearch \f$\alpha^\star\f$
-  Scalar alpha_opt;
+  Scalar alpha_opt = 0.;
   /// Merit function derivative in descent direction
   Scalar dmerit_dir = 0.;
 
-- 
2.43.0


From 02ff3bfe67785e649b6e78dc672b96f2cdf5d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 14/27] fix: initialise the merit and cost value of the results

---
 include/proxsuite-nlp/results.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index 0128bea..d275f2b 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -25,8 +25,8 @@ template <typename _Scalar> struct ResultsTpl {
 
   ConvergenceFlag converged = SUCCESS;
 
-  Scalar merit;
-  Scalar value;
+  Scalar merit = 0.;
+  Scalar value = 0.;
   VectorXs x_opt;
   VectorXs data_lams_opt;
   VectorOfRef lams_opt;
-- 
2.43.0


From 6b9f0a569f7485a05d8fd23930045a53e3a2c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 15/27] fix: results do not report success before a solve

---
 include/proxsuite-nlp/results.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index d275f2b..cb4de83 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -23,7 +23,7 @@ template <typename _Scalar> struct ResultsTpl {
   using Problem = ProblemTpl<Scalar>;
   using VecBool = Eigen::Matrix<bool, Eigen::Dynamic, 1>;
 
-  ConvergenceFlag converged = SUCCESS;
+  ConvergenceFlag converged = UNINIT;
 
   Scalar merit = 0.;
   Scalar value = 0.;
-- 
2.43.0


From 2c905c55acf9d8d2ec56fc1da5e03061a918fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 16/27] fix: cut the diagonal factor to the updated part in the
 triangular gemmt kernels

---
 include/proxsuite-nlp/linalg/gemmt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..c7ed72a 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,8 +41,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).head(j + 1));
+      dst.col(j).head(j + 1) +=
+          alpha * lhs.diagonal().head(j + 1).cwiseProduct(
+                      rhs.transpose().col(j).head(j + 1));
     }
   }
 };
@@ -59,8 +60,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).tail(m - j));
+      dst.col(j).tail(m - j) +=
+          alpha * lhs.diagonal().tail(m - j).cwiseProduct(
+                      rhs.transpose().col(j).tail(m - j));
     }
   }
 };
-- 
2.43.0


From 946896efee97ca5b5c090e1df3ca29717172b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 17/27] fix: the sign of a factorisation covers every pivot,
 and no earlier matrix

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  3 +++
 include/proxsuite-nlp/linalg/dense.hpp      | 11 +++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..960ab26 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -32,6 +32,8 @@ template <typename Scalar> struct block_impl {
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
     if ((nblocks == 0) || (n <= 1)) {
+      if (n == 1)
+        update_sign_matrix(sign, mat(0, 0));
       return true;
     }
 
@@ -310,6 +312,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..d2118cc 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -47,14 +47,8 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
   if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+    if (n == 1)
+      update_sign_matrix(sign, a(0, 0));
     return true;
   }
 
@@ -181,6 +175,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 9545d50549df4944ddbb5aa4f855fdcd4fa8da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 18/27] fix: assigning a block factorisation copies its block
 structure

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 960ab26..036ab2a 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -241,12 +241,28 @@ public:
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
     m_start_idx = other.m_start_idx;
   }
 
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    BlockLDLT copy(other);
+    std::swap(m_structure, copy.m_structure);
+    std::swap(m_struct_tr, copy.m_struct_tr);
+    m_matrix = other.m_matrix;
+    m_permutation = other.m_permutation;
+    m_info = other.m_info;
+    m_sign = other.m_sign;
+    m_perm = other.m_perm;
+    m_perm_inv = other.m_perm_inv;
+    m_iwork = other.m_iwork;
+    m_start_idx = other.m_start_idx;
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
-- 
2.43.0


From 59c497d72737ae818b1edf3fed042eaeb8bf7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 19/27] fix: release the temporary block structures of the
 block factorisation

---
 include/proxsuite-nlp/linalg/block-ldlt.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..b4ef9f4 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -20,6 +20,8 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern(); // call manually
   updateBlockPermutationMatrix(in);
+  delete[] in.m_data;
+  delete[] in.segment_lens;
 }
 
 template <typename Scalar>
@@ -29,6 +31,8 @@ BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
   updateBlockPermutationMatrix(in);
+  delete[] in.m_data;
+  delete[] in.segment_lens;
   return *this;
 }
 
@@ -36,6 +40,8 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
+  delete[] m_struct_tr.m_data;
+  delete[] m_struct_tr.segment_lens;
   m_struct_tr = m_structure.transpose();
   return flag;
 }
-- 
2.43.0


From 42c1a4f9eea7e9b2832522b06fd0543a5be807bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 20/27] fix: judge singularity of Bunch-Kaufman blocks relative
 to their scale

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..f6f594e 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -157,7 +157,9 @@ void bunch_kaufman_compute_signature(
       Real tr = ak + akp1;
       Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
 
-      if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon()) {
+      // the block is that of the inverse: its scale is arbitrary
+      Real scale = std::max(std::abs(ak * akp1), Eigen::numext::abs2(akp1k));
+      if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon() * scale) {
         signature[k] = 0;
         signature[k + 1] = int(math::sign(tr));
       } else if (det > Scalar(0)) {
-- 
2.43.0


From 34671f092f0d20e7ce113644d9208dd34951fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 21/27] fix: a factorisation object does not report an
 indeterminate status before compute()

---
 include/proxsuite-nlp/linalg/ldlt-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/linalg/ldlt-base.hpp b/include/proxsuite-nlp/linalg/ldlt-base.hpp
index 3d03cca..255fc6d 100644
--- a/include/proxsuite-nlp/linalg/ldlt-base.hpp
+++ b/include/proxsuite-nlp/linalg/ldlt-base.hpp
@@ -45,7 +45,7 @@ template <typename Scalar> struct ldlt_base {
   virtual ~ldlt_base() = 0;
 
 protected:
-  Eigen::ComputationInfo m_info;
+  Eigen::ComputationInfo m_info = Eigen::InvalidInput;
   SignMatrix m_sign = SignMatrix::ZeroSign;
 };
 
-- 
2.43.0


From 2da518c5abd1d07508795b57d4b0661e5f287e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 22/27] fix: release the default block structure once the
 factorisation has copied it

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index f6f594e..e71bdfd 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -114,6 +114,8 @@ LDLTVariant<Scalar> allocate_ldlt_from_sizes(const std::vector<isize> &nprims,
     auto structure = create_default_block_structure(nprims, nduals);
 
     linalg::BlockLDLT<Scalar> block_ldlt(size, structure);
+    delete[] structure.m_data;
+    delete[] structure.segment_lens;
     block_ldlt.findSparsifyingPermutation();
     return block_ldlt;
   }
-- 
2.43.0


From cec8a363a1e239c929336828917f505e1b9d0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 23/27] fix: check_if_symmetric compares a block with the
 transpose of its mirror

---
 src/block-kind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index fa072e7..5043da7 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -108,7 +108,7 @@ bool SymbolicBlockMatrix::check_if_symmetric() const noexcept {
   const auto &self = *this;
   for (isize i = 0; i < n; ++i) {
     for (isize j = 0; j < i; j++) {
-      if (self(i, j) != self(j, i)) {
+      if (self(i, j) != linalg::trans(self(j, i))) {
         return false;
       }
     }
-- 
2.43.0


From a2bc28d4e286513762ddf4c712de44328abd2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 24/27] fix: a copy of the results views its own multipliers

---
 include/proxsuite-nlp/results.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index cb4de83..792b0c7 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -58,6 +58,28 @@ template <typename _Scalar> struct ResultsTpl {
     }
   }
 
+  /// Deep copy: the multiplier views refer to the copy's own multipliers.
+  ResultsTpl(const ResultsTpl &other)
+      : converged(other.converged), merit(other.merit), value(other.value),
+        x_opt(other.x_opt), data_lams_opt(other.data_lams_opt),
+        active_set(other.active_set), dual_infeas(other.dual_infeas),
+        prim_infeas(other.prim_infeas),
+        constraint_violations(other.constraint_violations),
+        num_iters(other.num_iters), al_iters(other.al_iters), mu(other.mu),
+        rho(other.rho) {
+    lams_opt.reserve(other.lams_opt.size());
+    long start = 0;
+    for (const auto &lam : other.lams_opt) {
+      lams_opt.push_back(data_lams_opt.segment(start, lam.size()));
+      start += lam.size();
+    }
+  }
+  ResultsTpl(ResultsTpl &&) = default;
+  ResultsTpl &operator=(const ResultsTpl &other) {
+    return *this = ResultsTpl(other);
+  }
+  ResultsTpl &operator=(ResultsTpl &&) = default;
+
   friend std::ostream &operator<<(std::ostream &oss,
                                   const ResultsTpl<Scalar> &self) {
     oss << "Results {" << fmt::format("\n  convergence:   {},", self.converged)
-- 
2.43.0


From ea257e3083e56af1677c0a65883ef309f14f3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 25/27] fix: the workspace, whose views refer to its own
 storage, is not copyable

---
 include/proxsuite-nlp/workspace.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index 9497e4d..f477894 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -140,6 +140,11 @@ public:
     init(prob);
   }
 
+  // views refer to the storage of this object
+  WorkspaceTpl(const WorkspaceTpl &) = delete;
+  WorkspaceTpl &operator=(const WorkspaceTpl &) = delete;
+  WorkspaceTpl(WorkspaceTpl &&) = default;
+
   void init(const Problem &prob) {
     kkt_matrix.setZero();
     kkt_rhs.setZero();
-- 
2.43.0


From 361230eacb8d073fb41b595ef974400fae773b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 26/27] fix: a copy of the recorded history views its own
 multipliers

---
 .../helpers/history-callback.hpp              | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 69828a0..8db3e7b 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -20,7 +20,7 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
 
   PROXSUITE_NLP_DYNAMIC_TYPEDEFS(Scalar);
 
-  struct {
+  struct history_storage {
     std::vector<VectorXs> xs;
     std::vector<VectorXs> lams;
     std::vector<VectorOfRef> lams_view;
@@ -32,6 +32,35 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     /// Linesearch step-lengths
     std::vector<Scalar> alphas;
     std::vector<Scalar> dmerit_dir;
+
+    history_storage() = default;
+    /// Deep copy: the views refer to the multipliers of the copy.
+    history_storage(const history_storage &other)
+        : xs(other.xs), lams(other.lams), values(other.values),
+          prim_infeas(other.prim_infeas), dual_infeas(other.dual_infeas),
+          ls_alphas(other.ls_alphas), ls_values(other.ls_values),
+          alphas(other.alphas), dmerit_dir(other.dmerit_dir) {
+      lams_view.reserve(other.lams_view.size());
+      for (std::size_t k = 0; k < other.lams_view.size(); ++k)
+        lams_view.push_back(view(lams[k], other.lams_view[k]));
+    }
+    history_storage(history_storage &&) = default;
+    history_storage &operator=(const history_storage &other) {
+      return *this = history_storage(other);
+    }
+    history_storage &operator=(history_storage &&) = default;
+
+    /// Views on consecutive segments of @p lams, of the lengths of @p parts.
+    static VectorOfRef view(VectorXs &lams, const VectorOfRef &parts) {
+      VectorOfRef views;
+      views.reserve(parts.size());
+      long start = 0;
+      for (const auto &lam : parts) {
+        views.push_back(lams.segment(start, lam.size()));
+        start += lam.size();
+      }
+      return views;
+    }
   } storage;
 
   void call(const WorkspaceTpl<Scalar> &workspace,
@@ -41,15 +70,8 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
       storage.lams.push_back(results.data_lams_opt);
       // views on the copy just stored: the results keep changing, and may be
       // destroyed
-      VectorXs &lams = storage.lams.back();
-      VectorOfRef views;
-      views.reserve(results.lams_opt.size());
-      long start = 0;
-      for (const auto &lam : results.lams_opt) {
-        views.push_back(lams.segment(start, lam.size()));
-        start += lam.size();
-      }
-      storage.lams_view.push_back(views);
+      storage.lams_view.push_back(
+          history_storage::view(storage.lams.back(), results.lams_opt));
     }
     if (store_values_)
       storage.values.push_back(results.value);
-- 
2.43.0


From bc98bac74beec1d25b2ae6c117a26d5cbb6bcb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 27/27] fix: initialise the cost value of the workspace

---
 include/proxsuite-nlp/workspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index f477894..8dd088f 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -76,7 +76,7 @@ public:
   std::vector<VectorRef> cstr_values;
 
   /// Objective value
-  Scalar objective_value;
+  Scalar objective_value = 0.;
   /// Objective function gradient.
   VectorXs objective_gradient;
   /// Objective function Hessian.
-- 
2.43.0


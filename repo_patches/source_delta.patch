From 53e2532e5374b971bef432748a443ece95a9b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 01/12] fix: compute the complementarity residual without
 cancellation

Expanding ||s.*z - mu||^2 loses half of the digits (and clamps to zero), so a
point whose complementarity residual exceeds the requested tolerance could be
reported as SATISFIED_KKT_TOL.
---
 source/qp.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..bfdeff3 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -427,10 +427,8 @@ KKTError QPInteriorPointSolver::ComputeErrors(const double mu) const {
     result.r_primal_eq = ConstYBlock(dims_, r_).norm();
   }
   if (HasInequalityConstraints()) {
-    // evaluate (ds - mu)^T * (ds - mu)
-    const auto ds = ConstSBlock(dims_, r_);
-    const double rs_l2_corrected = ds.squaredNorm() - 2 * (ds.sum() * mu) + (mu * mu) * ds.rows();
-    result.r_comp = std::sqrt(std::max(rs_l2_corrected, 0.));
+    // Subtract `mu` element-wise. (Expanding the square here would cancel catastrophically.)
+    result.r_comp = (ConstSBlock(dims_, r_).array() - mu).matrix().norm();
     result.r_primal_ineq = ConstZBlock(dims_, r_).norm();
   }
   return result;
-- 
2.43.0


From 3dc342ea4da10dc001fea5e2277265c6b1ad2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/12] fix: predictor-corrector must use the complementarity
 of the current point

mu_affine (19.21) was computed from the barrier value carried between
iterations (initial_mu, or sigma * s^T * z / M), which is not s^T * z / M. The
result was usually clamped to zero, which made the corrected barrier value zero.
---
 source/qp.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index bfdeff3..c134fa7 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -177,10 +177,12 @@ IPIterationOutputs QPInteriorPointSolver::Iterate(const double mu_input,
     delta_affine_ = delta_;
 
     // Compute complementarity had we applied this update we just solved.
-    outputs.mu_affine = ComputePredictorCorrectorMuAffine(outputs.mu, outputs.alpha_probe);
+    // Both (19.21) and (19.22) are relative to the complementarity of the current point.
+    const double mu_current = ComputeMu();
+    outputs.mu_affine = ComputePredictorCorrectorMuAffine(mu_current, outputs.alpha_probe);
 
-    const double sigma = std::pow(outputs.mu_affine / outputs.mu, 3);  // equation (19.22)
-    outputs.mu = sigma * mu_input;
+    const double sigma = std::pow(outputs.mu_affine / mu_current, 3);  // equation (19.22)
+    outputs.mu = sigma * mu_current;
 
     // Solve again (alpha will be computed again below), input sigma is ignored.
     // This time, delta_affine_ will be incorporated to add the diag(dz)*ds term.
@@ -513,7 +515,7 @@ double QPInteriorPointSolver::ComputeMu() const {
   return s.dot(z) / static_cast<double>(dims_.M);
 }
 
-// We don't re-evaluate the s^T * z / M term, because it is already stored in mu.
+// We don't re-evaluate the s^T * z / M term, because the caller passes it as mu.
 double QPInteriorPointSolver::ComputePredictorCorrectorMuAffine(
     const double mu, const AlphaValues& alpha_probe) const {
   const auto s = ConstSBlock(dims_, variables_);
-- 
2.43.0


From a605385fbd44a7edfa9655d38395ec8c5af3870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 03/12] fix: null-space solver handles redundant equality
 constraints

---
 source/qp.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index c134fa7..a08a9ad 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -697,13 +697,14 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The leading block of R that belongs to the independent (pivot) constraints. Any constraints
+  // beyond the rank are redundant, and are satisfied when the independent ones are.
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From 6ba084359167a7ca08fe2bf1397b3ed65871fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 04/12] fix: reject inequality constraints with a negative
 variable index

---
 include/mini_opt/qp.hpp | 1 +
 source/qp.cc            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
diff --git a/source/qp.cc b/source/qp.cc
index a08a9ad..dddb502 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -68,6 +68,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : p_->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
     F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
   }
 }
-- 
2.43.0


From 8e21afeb91a6921b577544a9aa23d9860a71e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 05/12] fix: check the dimension of initial guesses

---
 source/nonlinear.cc | 1 +
 source/qp.cc        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..d35349e 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,7 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables.rows(), p_->dimension, "Initial guess has the wrong dimension");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
diff --git a/source/qp.cc b/source/qp.cc
index dddb502..fec5309 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -221,7 +221,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), variables_.rows(), "Wrong number of variables");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From 4077275199fdc85d36182c6413667ec703b93d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 06/12] fix: check the problem dimensions in the null-space
 solver

---
 source/qp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index fec5309..f886e72 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -683,6 +683,9 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows());
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From 329cf91b53de0e0f992bd39ca29cb4896ea2b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 07/12] fix: reject an initial equality penalty of zero, which
 the line search cannot use

---
 source/nonlinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index d35349e..9d748d3 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -57,7 +57,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.absolute_first_derivative_tol, 0);
   F_ASSERT_GT(params.armijo_search_tau, 0);
   F_ASSERT_LT(params.armijo_search_tau, 1);
-  F_ASSERT_GE(params.equality_penalty_initial, 0);
+  F_ASSERT_GT(params.equality_penalty_initial, 0);
   F_ASSERT_GE(params.equality_penalty_scale_factor, 1.0);
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
-- 
2.43.0


From 0f2fb03d749c602b271ca893774c24dba96262cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 08/12] fix: read non-finite numbers in serialised outputs as
 NaN

JSON writes NaN and infinity as null; reading a log with an unset mu_affine threw.
---
 source/serialization.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..e80caf5 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,6 +3,8 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <limits>
+
 #include <nlohmann/json.hpp>
 
 using json = nlohmann::json;
@@ -62,6 +64,22 @@ NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
 
+// JSON cannot express non-finite numbers: they are written as null, which we read back as NaN.
+static double number_from_json(const json& j) {
+  return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
+}
+
+static void member_from_json(const json& j, double& x) { x = number_from_json(j); }
+
+template <typename T>
+static void member_from_json(const json& j, T& x) {
+  j.get_to(x);
+}
+
+// Have NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE read members with `member_from_json`.
+#undef NLOHMANN_JSON_FROM
+#define NLOHMANN_JSON_FROM(v1) member_from_json(nlohmann_json_j.at(#v1), nlohmann_json_t.v1);
+
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(Errors, f, equality);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPEigenvalues, min, max, abs_min);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(DirectionalDerivatives, d_f, d_equality);
@@ -100,11 +118,11 @@ struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
         j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
+        number_from_json(j["lambda"]), j["errors_initial"].get<Errors>(),
         j["qp_outputs"]
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
+        j["directional_derivatives"].get<DirectionalDerivatives>(), number_from_json(j["penalty"]),
         j["step_result"].get<StepSizeSelectionResult>(),
         j["line_search_steps"].get<std::vector<LineSearchStep>>());
   }
-- 
2.43.0


From 362f25bb6eaf1a37fbd71c7c935433c2bed5eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 09/12] fix: export traces while holding the lock

Other threads may submit events at the same time.
---
 source/tracing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..5061752 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,6 +107,7 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
+  std::lock_guard guard{impl_->mutex};
   return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
 }
 
-- 
2.43.0


From e685ff0bdc35a08c464054d84f6f77c6a90da280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 10/12] fix: escape trace names in the exported JSON

MINI_OPT_SCOPED_TRACE("name") stringizes its argument, so names may contain quotes.
---
 source/tracing.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5061752..5abc751 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -4,7 +4,9 @@
 #ifdef MINI_OPT_TRACING
 
 #include <deque>
+#include <iterator>
 #include <mutex>
+#include <string>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -25,6 +27,23 @@
 
 #include "mini_opt/assertions.hpp"
 
+// Escape a string so that it can be placed between quotes in JSON.
+static std::string escape_json(const std::string_view str) {
+  std::string result;
+  result.reserve(str.size());
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.push_back('\\');
+      result.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      fmt::format_to(std::back_inserter(result), "\\u{:04x}", static_cast<unsigned>(c));
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
 // Format mini_opt::trace_event to JSON.
 template <>
 struct fmt::formatter<mini_opt::trace_event> {
@@ -35,7 +54,7 @@ struct fmt::formatter<mini_opt::trace_event> {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
         R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
+    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", escape_json(event.name)),
                           fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000));
-- 
2.43.0


From 5f75e05cca751137c8d11ed5b969166052612ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 11/12] fix: record traces of scopes that complete normally
 during stack unwinding

---
 include/mini_opt/tracing.hpp | 3 +++
 source/tracing.cc            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..98acfe4 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -80,6 +81,8 @@ class scoped_trace {
  private:
   std::string_view name_;
   std::chrono::high_resolution_clock::time_point start_;
+  // Number of exceptions in flight on construction.
+  int exceptions_{std::uncaught_exceptions()};
 };
 
 }  // namespace mini_opt
diff --git a/source/tracing.cc b/source/tracing.cc
index 5abc751..5fb264f 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -137,7 +137,7 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::high_resolution_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0


From e1e267b70324e89c7e315465e587d8a3e9ae68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 12/12] fix: a rejected problem must not replace the problem of
 the interior point solver

---
 source/qp.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index f886e72..2eca74e 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -20,19 +20,27 @@ QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(pr
 void QPInteriorPointSolver::Setup(const QP* const problem) {
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
 
-  p_ = problem;
-  F_ASSERT_EQ(p_->G.rows(), p_->G.cols(), "G must be square");
-  F_ASSERT_EQ(p_->G.rows(), p_->c.rows(), "Dims of G and c must match");
-  F_ASSERT_EQ(p_->A_eq.rows(), p_->b_eq.rows(), "Rows of A_e and b_e must match");
+  F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
+  F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(problem->A_eq.rows(), problem->b_eq.rows(), "Rows of A_e and b_e must match");
 
   // If equality constraints were specified, we must be able to multiply A*x
-  if (p_->A_eq.size() > 0) {
-    F_ASSERT_EQ(p_->A_eq.cols(), p_->G.rows());
+  if (problem->A_eq.size() > 0) {
+    F_ASSERT_EQ(problem->A_eq.cols(), problem->G.rows());
   } else {
-    F_ASSERT_EQ(p_->A_eq.rows(), 0);
-    F_ASSERT_EQ(p_->b_eq.rows(), 0);
+    F_ASSERT_EQ(problem->A_eq.rows(), 0);
+    F_ASSERT_EQ(problem->b_eq.rows(), 0);
+  }
+
+  // check indices up front
+  for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
+    F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()), "Constraint index is out of bounds");
   }
 
+  // the problem is valid, only now replace the previous one
+  p_ = problem;
+
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
   dims_.N = static_cast<int>(p_->G.rows());
   dims_.M = static_cast<int>(p_->constraints.size());
@@ -65,12 +73,6 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
   H_.setConstant(nan);
   H_inv_.setConstant(nan);
 #endif
-
-  // check indices up front
-  for (const LinearInequalityConstraint& c : p_->constraints) {
-    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
-    F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
-  }
 }
 
 // Assert params are in valid range.
-- 
2.43.0


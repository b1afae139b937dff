// Digests of everything observable, bit for bit.
#pragma once
#include <string>
#include "nls.hpp"
#include "mini_opt/qp.hpp"
namespace vh {
using namespace mini_opt;

inline std::string bits(double v) {   // every bit counts, except in a nan
  if (std::isnan(v)) return "n";
  char b[40]; std::snprintf(b, sizeof b, "%a", v); return b;
}
struct Digest {
  std::string t;
  Digest& d(double v) { t += bits(v); t += ' '; return *this; }
  Digest& i(long v) { t += std::to_string(v); t += ' '; return *this; }
  Digest& s(const std::string& v) { t += v; t += ' '; return *this; }
  template <class M> Digest& m(const M& x) { i(x.rows()); i(x.cols()); for (int a = 0; a < x.rows(); ++a) for (int b = 0; b < x.cols(); ++b) d(x(a, b)); return *this; }
};
inline void dig(Digest& g, const QPInteriorPointSolverOutputs& o) {
  g.i(static_cast<int>(o.termination_state)).i(o.iterations.size());
  for (const auto& it : o.iterations) {
    for (const KKTError* k : {&it.kkt_initial, &it.kkt_final}) g.d(k->r_dual).d(k->r_comp).d(k->r_primal_eq).d(k->r_primal_ineq);
    const auto& p = it.ip_outputs;
    g.d(p.mu).d(p.alpha.primal).d(p.alpha.dual).d(p.alpha_probe.primal).d(p.alpha_probe.dual).d(p.mu_affine);
  }
  if (o.lagrange_multipliers) g.d(o.lagrange_multipliers->min).d(o.lagrange_multipliers->l_infinity); else g.s("-");
}
inline void dig(Digest& g, const NLSIteration& it) {
  g.i(it.iteration).i(static_cast<int>(it.optimizer_state)).d(it.lambda).d(it.errors_initial.f).d(it.errors_initial.equality);
  if (const auto* ns = std::get_if<QPNullSpaceTerminationState>(&it.qp_outputs)) g.s("ns").i(static_cast<int>(*ns)); else dig(g, std::get<QPInteriorPointSolverOutputs>(it.qp_outputs));
  if (it.qp_eigenvalues) g.d(it.qp_eigenvalues->min).d(it.qp_eigenvalues->max).d(it.qp_eigenvalues->abs_min); else g.s("-");
  g.d(it.directional_derivatives.d_f).d(it.directional_derivatives.d_equality).d(it.penalty).i(static_cast<int>(it.step_result)).i(it.line_search_steps.size());
  for (const auto& s : it.line_search_steps) g.d(s.alpha).d(s.errors.f).d(s.errors.equality);
}
inline void dig(Digest& g, const NLSSolverOutputs& o) {
  g.i(static_cast<int>(o.termination_state)).i(o.iterations.size());
  for (const auto& it : o.iterations) dig(g, it);
}
inline std::string prob_digest(const QP& q) {
  Digest g; g.m(q.G).m(q.c).m(q.A_eq).m(q.b_eq).i(q.constraints.size());
  for (const auto& c : q.constraints) g.i(c.variable).d(c.a).d(c.b);
  return g.t;
}
inline std::string prob_digest(const Problem& q) {
  Digest g; g.i(q.dimension).i(q.costs.size()).i(q.equality_constraints.size()).i(q.inequality_constraints.size());
  for (const auto& c : q.inequality_constraints) g.i(c.variable).d(c.a).d(c.b);
  return g.t;
}
inline QP read_qp(Reader& r) {
  QP qp; qp.G = r.mat(); qp.c = r.vec();
  const Eigen::MatrixXd A = r.mat(); const Eigen::VectorXd b = r.vec();
  if (A.rows() > 0) { qp.A_eq = A; qp.b_eq = b; }
  const int M = r.i();
  for (int k = 0; k < M; ++k) { const int v = r.i(); const double a = r.d(), bb = r.d(); qp.constraints.emplace_back(v, a, bb); }
  return qp;
}
}  // namespace vh

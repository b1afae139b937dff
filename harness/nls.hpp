// Problems for the nonlinear solver built from a scenario, with every residual evaluation recorded.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include "common.hpp"
#include "mini_opt/nonlinear.hpp"

namespace vh {
using namespace mini_opt;

struct Call { Eigen::VectorXd p, e; Eigen::MatrixXd J; };
struct Group { bool jac; std::map<int, Call> calls; std::vector<std::optional<double>> x; };
struct Retr { Eigen::VectorXd xin, dx, xout; double a; };
struct Item { int type; Group g; Retr r; std::string rec; bool answer; Eigen::VectorXd vars; };  // 0 group, 1 retraction, 2 callback

struct Spec {  // one residual
  std::string kind; int R, P; std::vector<int> idx; int jmode, nanmode; double jf, thr, noise;
  Eigen::MatrixXd a; Eigen::VectorXd c0; std::vector<Eigen::MatrixXd> Q; bool eq; int id; bool fixedp; int throw_at;
};

// Scripted values: what a function returns, by evaluation.  Of an "edge" script the values of the tries are pairs <<mode, value>>:
// mode 0 is literal, the others are relative to a decision threshold of the run (see edge_value).
struct Script { std::vector<std::vector<double>> lin; std::vector<std::vector<double>> tries; int it{-1}, tr{0}; };

struct Recorder {
  int n{0};
  bool on{true}, force{true};
  bool quiet{false};             // record nothing at all (several threads evaluate)
  int budget{100000};            // evaluations before the harness stops a runaway solve
  std::vector<Item> items;
  std::vector<const Spec*> specs;
  std::map<int, Script> scripts;
  Eigen::VectorXd dx; double alpha{1};      // of the last retraction
  double rel{0}, abs{0};                    // exit tolerances
  std::function<void(const char*)> hook;   // called by every user function
  int calls{0};
  void call(const Spec& s, bool jac, const Eigen::VectorXd& p, const Eigen::VectorXd& e, const Eigen::MatrixXd& J) {
    if (quiet) return;
    ++calls;
    if (calls > budget) throw std::runtime_error("evaluation budget exceeded");
    if (!on) return;
    bool fresh = force || items.empty() || items.back().type != 0 || items.back().g.jac != jac;
    if (!fresh) {
      const Group& g = items.back().g;
      for (int k = 0; k < s.P && !fresh; ++k) { const auto& v = g.x[s.idx[k]]; if (v && !(*v == p[k] || (std::isnan(*v) && std::isnan(p[k])))) fresh = true; }
      // The same function again at the same point is a new evaluation only if everything was evaluated already.
      if (!fresh && g.calls.count(s.id) && g.calls.size() == specs.size()) fresh = true;
    }
    if (fresh) { Item it{}; it.type = 0; it.g.jac = jac; it.g.x.resize(n); items.push_back(it); force = false; }
    Group& g = items.back().g;
    for (int k = 0; k < s.P; ++k) g.x[s.idx[k]] = p[k];
    g.calls[s.id] = Call{p, e, J};
  }
};

inline double hash01(const Eigen::VectorXd& p, int salt) {
  unsigned long long h = 1469598103934665603ull ^ (salt * 7919ull);
  for (int k = 0; k < p.size(); ++k) { unsigned long long b; const double v = p[k]; std::memcpy(&b, &v, 8); for (int q = 0; q < 8; ++q) { h ^= (b >> (8 * q)) & 255; h *= 1099511628211ull; } }
  return static_cast<double>((h >> 11) & ((1ull << 52) - 1)) / static_cast<double>(1ull << 52);
}

// A value of the function for which the cost is (1 + d) times a threshold: 1 sufficient decrease, 2 relative exit, 3 absolute exit.
inline double edge_value(const Spec& s, const Recorder& rec, const std::vector<double>& lin, int mode, double d) {
  if (mode == 0) return d;
  const double f0 = 0.5 * lin[0] * lin[0];
  double slope = 0;
  for (int k = 0; k < s.P && s.idx[k] < rec.dx.size(); ++k) slope += lin[0] * lin[1 + k] * rec.dx[s.idx[k]];
  const double t = mode == 1 ? f0 + 1e-4 * rec.alpha * slope : mode == 2 ? f0 * (1 - rec.rel) : rec.abs;
  return std::sqrt(2 * std::max(0.0, t * (1 + d)));
}

inline void evaluate(const Spec& s, Recorder& rec, const Eigen::VectorXd& p, Eigen::VectorXd& e, Eigen::MatrixXd& J, bool jac) {
  e.setZero(s.R); J.setZero(s.R, s.P);
  if (s.kind == "script" || s.kind == "edge") {
    Script& sc = rec.scripts[s.id];
    const auto& l = [&]() -> const std::vector<double>& { return sc.lin.at(std::min<std::size_t>(std::max(sc.it, 0), sc.lin.size() - 1)); };
    if (jac) { sc.it++; sc.tr = 0; e[0] = l()[0]; for (int k = 0; k < s.P; ++k) J(0, k) = k < static_cast<int>(l().size()) - 1 ? l()[k + 1] : 0.0; }
    else {
      const auto& t = sc.tries.at(std::min<std::size_t>(std::max(sc.it, 0), sc.tries.size() - 1));
      if (s.kind == "script") e[0] = t.empty() ? 0.0 : t[std::min<std::size_t>(sc.tr, t.size() - 1)];
      else { const std::size_t q = 2 * std::min<std::size_t>(sc.tr, t.size() / 2 - 1); e[0] = edge_value(s, rec, l(), static_cast<int>(t.at(q)), t.at(q + 1)); }
      sc.tr++;
    }
    return;
  }
  for (int r = 0; r < s.R; ++r) {
    e[r] = s.c0[r] + s.a.row(r).dot(p) + (s.Q.empty() ? 0.0 : p.dot(s.Q[r] * p));
    J.row(r) = s.a.row(r);
    if (!s.Q.empty()) J.row(r) += ((s.Q[r] + s.Q[r].transpose()) * p).transpose();
    if (s.noise != 0) e[r] += s.noise * (hash01(p, r) - 0.5);
  }
  if (s.jmode == 1) J *= s.jf;
  if (s.jmode == 2) for (int r = 0; r < s.R; ++r) for (int k = 0; k < s.P; ++k) J(r, k) += s.jf * (hash01(p, 100 + r * 10 + k) - 0.5);
  if (s.nanmode != 0 && p.size() > 0 && std::abs(p[0]) > s.thr) {
    const double bad = s.nanmode == 1 ? std::nan("") : std::numeric_limits<double>::infinity();
    e.setConstant(bad);
  }
}

template <int R, int P> Residual make_residual(const Spec* s, Recorder* rec) {
  using PV = Eigen::Matrix<double, P, 1>;
  auto fn = [s, rec](const PV& p, Eigen::Matrix<double, R, P>* J) -> Eigen::Matrix<double, R, 1> {
    Eigen::VectorXd pp = p, e; Eigen::MatrixXd JJ;
    evaluate(*s, *rec, pp, e, JJ, J != nullptr);
    rec->call(*s, J != nullptr, pp, e, JJ);
    if (rec->quiet && J) *J = JJ;   // what a function has written stays, and what it was given too, whatever it does meanwhile
    if (rec->hook) rec->hook(J != nullptr ? "lin" : "try");
    if (rec->quiet) { Eigen::MatrixXd unused; pp = p; evaluate(*s, *rec, pp, e, unused, J != nullptr); return e; }
    if (s->throw_at >= 0 && rec->calls == s->throw_at) throw std::runtime_error("user function failed");
    if (J) *J = JJ;
    return e;
  };
  typename internal::IndexType<P>::type idx;
  if constexpr (P == Eigen::Dynamic) idx.assign(s->idx.begin(), s->idx.end());
  else for (int k = 0; k < P; ++k) idx[k] = s->idx[k];
  return MakeResidual<R, P>(idx, fn);
}
template <int R> Residual make_r(const Spec* s, Recorder* rec) {
  if (s->fixedp) switch (s->P) { case 1: return make_residual<R, 1>(s, rec); case 2: return make_residual<R, 2>(s, rec); default: break; }
  return make_residual<R, Eigen::Dynamic>(s, rec);
}
inline Residual make(const Spec* s, Recorder* rec) {
  switch (s->R) { case 1: return make_r<1>(s, rec); case 2: return make_r<2>(s, rec); default: return make_r<3>(s, rec); }
}

inline Spec read_spec(Reader& r, bool eq, int id) {
  Spec s{}; s.kind = r.tok(); s.eq = eq; s.id = id; s.throw_at = -1;
  s.R = r.i(); s.P = r.i(); for (int k = 0; k < s.P; ++k) s.idx.push_back(r.i());
  s.fixedp = r.i() != 0;
  if (s.kind == "script" || s.kind == "edge") return s;
  s.jmode = r.i(); s.jf = r.d(); s.nanmode = r.i(); s.thr = r.d(); s.noise = r.d();
  s.c0.resize(s.R); s.a.resize(s.R, s.P);
  for (int k = 0; k < s.R; ++k) s.c0[k] = r.d();
  for (int k = 0; k < s.R; ++k) for (int q = 0; q < s.P; ++q) s.a(k, q) = r.d();
  if (r.i()) for (int k = 0; k < s.R; ++k) { Eigen::MatrixXd Q(s.P, s.P); for (int i = 0; i < s.P; ++i) for (int j = 0; j < s.P; ++j) Q(i, j) = r.d(); s.Q.push_back(Q); }
  return s;
}

using NLS = ConstrainedNonlinearLeastSquares;

struct NlsProblem {
  std::string id, retr, tag; int cbmode, cbstop;
  std::vector<std::unique_ptr<Spec>> specs;
  Problem problem{};
  NLS::Params par{};
  Eigen::VectorXd x0;
  Recorder rec;
  std::vector<std::string> bounds, expect;

  void read(Reader& r) {
    id = r.tok(); tag = r.tok();
    const int n = r.i(); problem.dimension = n; rec.n = n;
    const int nc = r.i();
    for (int k = 0; k < nc; ++k) specs.push_back(std::make_unique<Spec>(read_spec(r, false, k)));
    const int ne = r.i();
    for (int k = 0; k < ne; ++k) specs.push_back(std::make_unique<Spec>(read_spec(r, true, nc + k)));
    const int nb = r.i();
    for (int k = 0; k < nb; ++k) { const int v = r.i(); const double a = r.d(), b = r.d(); problem.inequality_constraints.emplace_back(v, a, b); bounds.push_back(Obj{}.i("v", v + 1).n("a", a).n("b", b).done()); }
    retr = r.tok();
    par.max_iterations = r.i(); par.max_qp_iterations = r.i(); par.termination_kkt_tolerance = r.d(); par.absolute_exit_tol = r.d(); par.relative_exit_tol = r.d();
    par.absolute_first_derivative_tol = r.d(); par.max_line_search_iterations = r.i();
    par.line_search_strategy = r.tok() == "ARMIJO_BACKTRACK" ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
    par.armijo_search_tau = r.d(); par.equality_penalty_initial = r.d(); par.equality_penalty_scale_factor = r.d(); par.equality_penalty_rho = r.d();
    par.lambda_initial = r.d(); par.lambda_failure_init = r.d(); par.lambda_decrease_on_success = r.d(); par.lambda_decrease_on_restore = r.d();
    par.max_lambda = r.d(); par.min_lambda = r.d(); par.log_qp_eigenvalues = r.i() != 0;
    x0 = r.vec();
    cbmode = r.i(); cbstop = r.i();
    std::vector<int> ids;
    for (const auto& s : specs) if (s->kind == "script" || s->kind == "edge") ids.push_back(s->id);
    for (std::size_t m = 0; m < std::max<std::size_t>(1, ids.size()); ++m) {
      const int ns = r.i();
      for (int k = 0; k < ns; ++k) { const Eigen::VectorXd l = r.vec(), t = r.vec(); Script& sc = rec.scripts[ids.empty() ? -1 : ids[m]]; sc.lin.emplace_back(l.data(), l.data() + l.size()); sc.tries.emplace_back(t.data(), t.data() + t.size()); }
    }
    rec.rel = par.relative_exit_tol; rec.abs = par.absolute_exit_tol;
    const int nx = r.i();
    for (int k = 0; k < nx; ++k) { const std::string res = r.tok(), mode = r.tok(); const double lam = r.d(); const int m = r.i(); expect.push_back(Obj{}.str("res", res).str("mode", mode).n("lam", lam).i("n", m).done()); }
    if (nx >= 0) expect.push_back(Obj{}.str("term", r.tok()).done());
    for (auto& s : specs) { rec.specs.push_back(s.get()); (s->eq ? problem.equality_constraints : problem.costs).push_back(make(s.get(), &rec)); }
  }
  NLS::Retraction retraction() {
    if (retr == "none") return nullptr;
    const std::string kind = retr;
    Recorder* R = &rec;
    return [R, kind](Eigen::VectorXd& x, ConstVectorBlock dx, const double alpha) {
      Retr q; q.xin = x; q.dx = dx; q.a = alpha;
      if (!R->quiet) { R->dx = q.dx; R->alpha = alpha; }
      if (kind == "add") x += dx * alpha;
      else if (kind == "slow") x += dx * (alpha * 1e-3);
      else if (kind == "bend") for (int k = 0; k < x.size(); ++k) x[k] += std::tanh(alpha * dx[k]);
      else if (kind == "hold") {}
      if (R->hook) R->hook("move");   // it may fail with its work done
      if (R->quiet) return;
      q.xout = x;
      if (R->on) { Item it{}; it.type = 1; it.r = q; R->items.push_back(it); }
      R->force = true;
    };
  }
};

inline std::string qp_json(const std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& q) {
  Obj o;
  if (const auto* ns = std::get_if<QPNullSpaceTerminationState>(&q)) o.str("kind", "ns").str("term", *ns == QPNullSpaceTerminationState::SUCCESS ? "SUCCESS" : "NOT_POSITIVE_DEFINITE").raw("lag", "[]").i("n", 1).n("last", 0.0);
  else {
    const auto& ip = std::get<QPInteriorPointSolverOutputs>(q);
    o.str("kind", "ip").str("term", ip.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "SATISFIED_KKT_TOL" : "MAX_ITERATIONS");
    if (ip.lagrange_multipliers) o.raw("lag", "[\"" + num(ip.lagrange_multipliers->min) + "\",\"" + num(ip.lagrange_multipliers->l_infinity) + "\"]"); else o.raw("lag", "[]");
    o.i("n", ip.iterations.size()).n("last", ip.iterations.empty() ? 0.0 : ip.iterations.back().kkt_final.Max());
  }
  return o.done();
}
inline const char* res_name(StepSizeSelectionResult r) {
  switch (r) {
    case StepSizeSelectionResult::SUCCESS: return "SUCCESS"; case StepSizeSelectionResult::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case StepSizeSelectionResult::FIRST_ORDER_SATISFIED: return "FIRST_ORDER_SATISFIED"; case StepSizeSelectionResult::POSITIVE_DERIVATIVE: return "POSITIVE_DERIVATIVE";
    case StepSizeSelectionResult::FAILURE_NON_FINITE_COST: return "FAILURE_NON_FINITE_COST"; case StepSizeSelectionResult::FAILURE_INVALID_ALPHA: return "FAILURE_INVALID_ALPHA";
  }
  return "?";
}
inline const char* nls_term(NLSTerminationState t) {
  switch (t) {
    case NLSTerminationState::MAX_ITERATIONS: return "MAX_ITERATIONS"; case NLSTerminationState::SATISFIED_ABSOLUTE_TOL: return "SATISFIED_ABSOLUTE_TOL";
    case NLSTerminationState::SATISFIED_RELATIVE_TOL: return "SATISFIED_RELATIVE_TOL"; case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL: return "SATISFIED_FIRST_ORDER_TOL";
    case NLSTerminationState::MAX_LAMBDA: return "MAX_LAMBDA"; case NLSTerminationState::QP_INDEFINITE: return "QP_INDEFINITE"; case NLSTerminationState::USER_CALLBACK: return "USER_CALLBACK";
  }
  return "?";
}
inline std::string record_json(const NLSIteration& it) {
  std::vector<std::string> steps;
  for (const auto& s : it.line_search_steps) steps.push_back(Obj{}.n("a", s.alpha).n("f", s.errors.f).n("q", s.errors.equality).done());
  Obj o;
  o.i("i", it.iteration).str("mode", it.optimizer_state == OptimizerState::NOMINAL ? "NOMINAL" : "ATTEMPTING_RESTORE_LM").n("lam", it.lambda)
      .n("f", it.errors_initial.f).n("q", it.errors_initial.equality).raw("qp", qp_json(it.qp_outputs)).n("df", it.directional_derivatives.d_f)
      .n("dq", it.directional_derivatives.d_equality).n("pen", it.penalty).str("res", res_name(it.step_result)).raw("steps", Obj::join(steps));
  if (it.qp_eigenvalues) o.raw("eig", Obj::arr(Eigen::Vector3d(it.qp_eigenvalues->min, it.qp_eigenvalues->max, it.qp_eigenvalues->abs_min))); else o.raw("eig", "[]");
  return o.done();
}
}  // namespace vh

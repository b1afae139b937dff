// The same solve with all exits far away, and with one of them drawn in.
#include "digest.hpp"
using namespace vh;

struct Entry { std::string head, res, state; std::vector<std::string> tries; };
struct Out { std::string term, final; std::vector<std::string> calls; std::vector<Entry> log; std::vector<NLSIteration> its; QPInteriorPointSolverOutputs ip{}; };

static Entry entry(const NLSIteration& it) {
  Entry e; NLSIteration c = it; c.line_search_steps.clear(); c.step_result = StepSizeSelectionResult::SUCCESS; c.optimizer_state = OptimizerState::NOMINAL;
  Digest g; dig(g, c); e.head = fnv(g.t); e.res = res_name(it.step_result); e.state = it.optimizer_state == OptimizerState::NOMINAL ? "NOMINAL" : "ATTEMPTING_RESTORE_LM";
  for (const auto& s : it.line_search_steps) { Digest t; t.d(s.alpha).d(s.errors.f).d(s.errors.equality); e.tries.push_back(fnv(t.t)); }
  return e;
}
static Out solve(NlsProblem& P, const NLS::Params& par, long stop) {
  Out out;
  NLS nls(&P.problem, P.retraction());
  P.rec.calls = 0; for (auto& s : P.rec.scripts) { s.second.it = -1; s.second.tr = 0; }
  P.rec.dx.resize(0); P.rec.alpha = 1;
  P.rec.on = true; P.rec.items.clear(); P.rec.force = true;
  P.rec.hook = [&](const char* k) {
    Digest g; g.s(k).i(P.rec.items.size());
    if (!P.rec.items.empty()) { const Item& it = P.rec.items.back(); if (it.type == 0) { g.i(it.g.jac).i(it.g.calls.size()); for (const auto& c : it.g.calls) g.i(c.first).m(c.second.p); } }
    if (std::string(k) == "move") g.m(P.rec.dx).d(P.rec.alpha);
    out.calls.push_back(fnv(g.t));
  };
  long n = 0;
  nls.SetUserExitCallback([&](const NLSIteration&) { return ++n != stop; });
  try {
    const NLSSolverOutputs o = nls.Solve(par, P.x0);
    out.term = nls_term(o.termination_state); out.its = o.iterations;
    for (const auto& it : o.iterations) out.log.push_back(entry(it));
  } catch (const assert::default_error&) { out.term = "assertion"; }
  catch (const std::exception&) { out.term = "exception"; }
  Digest g; g.m(static_cast<const NLS&>(nls).variables()); out.final = fnv(g.t);
  return out;
}
static Out inner(const QP& qp, const QPInteriorPointSolver::Params& p) {
  Out out; Digest fin;
  QPInteriorPointSolver s; s.Setup(&qp);
  try {
    out.ip = s.Solve(p);
    out.term = out.ip.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "SATISFIED_KKT_TOL" : "MAX_ITERATIONS";
    if (out.ip.lagrange_multipliers) fin.d(out.ip.lagrange_multipliers->min).d(out.ip.lagrange_multipliers->l_infinity);
    for (const auto& it : out.ip.iterations) { QPInteriorPointSolverOutputs one{}; one.iterations = {it}; Digest g; dig(g, one); out.log.push_back(Entry{fnv(g.t), "", "", {}}); }
  } catch (const assert::default_error&) { out.term = "assertion"; }
  catch (const std::exception&) { out.term = "exception"; }
  fin.m(s.x_block()).m(s.s_block()).m(s.y_block()).m(s.z_block()); out.final = fnv(fin.t);
  return out;
}

static std::string id;
static void say(const char* e, const std::string& what, const std::string& kind, long v, const Out& o, const std::string& more = "") {
  std::vector<std::string> ls, cs;
  for (const Entry& x : o.log) { std::vector<std::string> ts; for (const auto& t : x.tries) ts.push_back(Obj::quote(t)); ls.push_back(Obj{}.str("head", x.head).raw("tries", Obj::join(ts)).str("res", x.res).str("state", x.state).done()); }
  for (const auto& x : o.calls) cs.push_back(Obj::quote(x));
  emit_nf(Obj{}.str("e", e).str("scn", id).str("what", what).str("kind", kind).i("v", v).raw("log", Obj::join(ls)).raw("calls", Obj::join(cs)).str("term", o.term).str("final", o.final).str("more", more));
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    id = r.tok();
    const std::string kind = r.tok();
    if (kind == "qp") {
      const QP qp = read_qp(r); const int variant = r.i();
      QPInteriorPointSolver::Params p{};
      p.sigma = variant % 2 ? 0.1 : 0.5; p.max_iterations = 2 + variant % 9;
      p.barrier_strategy = static_cast<BarrierStrategy>(variant % 3);
      p.initial_guess_method = variant % 5 < 3 ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
      p.initialize_mu_with_complementarity = variant % 7 == 0; p.decrease_mu_only_on_small_error = variant % 11 == 0;
      p.termination_kkt_tol = 1e-300; p.termination_complementarity_tol = 1e-300;
      const Out full = inner(qp, p);
      if (full.term != "assertion" && full.term != "exception") {
        say("full", "ip", "none", 0, full);
        const int N = static_cast<int>(full.log.size());
        for (int n = 1; n <= p.max_iterations; ++n) { auto q = p; q.max_iterations = n; say("cut", "ip", "budget", n, inner(qp, q)); }
        for (int j = 0; j < N; ++j) for (double w : {.99, 1.01, 1e6}) {
          auto q = p; q.termination_kkt_tol = full.ip.iterations[j].kkt_final.Max() * w; q.termination_complementarity_tol = 1e300;
          if (q.termination_kkt_tol > 0) say("cut", "ip", "kkt", j, inner(qp, q));
        }
        for (int j = -9; j < 4; j += 3) { auto q = p; q.termination_kkt_tol = 1e300; q.termination_complementarity_tol = std::pow(10., j); say("cut", "ip", "kkt", j, inner(qp, q)); }
      }
      emit(Obj{}.str("e", "end").str("scn", id));
      continue;
    }
    r.expect("NLS"); NlsProblem P; P.read(r);
    NLS::Params p = P.par;
    p.max_iterations = 9; p.absolute_exit_tol = 1e-300; p.relative_exit_tol = 0; p.absolute_first_derivative_tol = 0; p.max_lambda = 1e200; p.max_line_search_iterations = 4;
    const Out full = solve(P, p, -1);
    if (full.term != "assertion" && full.term != "exception") {
      const std::string more = std::string(P.problem.equality_constraints.empty() ? "" : "equalities") + (P.problem.inequality_constraints.empty() ? "" : "bounds");
      say("full", "nls", "none", 0, full, more);
      const int N = static_cast<int>(full.log.size());
      for (int n = 0; n <= std::min(N + 1, p.max_iterations); ++n) { auto q = p; q.max_iterations = n; say("cut", "nls", "budget", n, solve(P, q, -1)); }
      for (int n = 1; n <= N; ++n) say("cut", "nls", "stop", n, solve(P, p, n));
      for (int k = 1; k <= p.max_line_search_iterations; ++k) { auto q = p; q.max_line_search_iterations = k - 1; say("cut", "nls", "tries", k, solve(P, q, -1)); }
      for (int j = 0; j < std::min(N, 5); ++j) {
        const NLSIteration& it = full.its[j];
        for (double w : {1., 5., 50.}) { auto q = p; q.max_lambda = std::max({it.lambda * w, p.lambda_initial, p.min_lambda}); say("cut", "nls", "damping", j, solve(P, q, -1)); }
        const double slope = std::max(std::abs(it.directional_derivatives.d_f), std::abs(it.directional_derivatives.d_equality));
        for (double w : {1., 1.01, 1e3}) { auto q = p; q.absolute_first_derivative_tol = slope * w; say("cut", "nls", "grad", j, solve(P, q, -1)); }
        if (it.line_search_steps.empty()) continue;
        const Errors& e = it.line_search_steps.back().errors;
        for (double w : {1., 1.01, 1e3}) { auto q = p; q.absolute_exit_tol = e.LInfinity() * w; if (q.absolute_exit_tol > 0 && std::isfinite(q.absolute_exit_tol)) say("cut", "nls", "abs", j, solve(P, q, -1)); }
        const double rel = 1 - e.Total(it.penalty) / it.errors_initial.Total(it.penalty);
        for (double w : {.99, 1.01}) { auto q = p; q.relative_exit_tol = rel * w; if (q.relative_exit_tol > 0 && q.relative_exit_tol <= 1) say("cut", "nls", "rel", j, solve(P, q, -1)); }
      }
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

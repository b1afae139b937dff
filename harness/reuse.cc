// Histories of calls on one solver object; every call is also made on a fresh object.
#include <cstdlib>
#include <memory>
#include "digest.hpp"
using namespace mini_opt;
using namespace vh;

// Fills the unused part of the stack, so that a read of an uninitialised local shows.
static int poison_byte = 0;
__attribute__((noinline)) static void poison_stack() {
  volatile unsigned char buf[48 << 10];
  for (std::size_t k = 0; k < sizeof buf; ++k) buf[k] = static_cast<unsigned char>(poison_byte);
}

// Outcome of one call: "class" and everything observable.
struct Outcome { std::string cls; Digest g; };
template <class F> static Outcome attempt(F&& f) {
  Outcome o;
  poison_stack();
  try { f(o); }
  catch (const assert::default_error&) { o.cls = "assertion"; o.g.t = "assertion"; }
  catch (const std::exception& ex) { o.cls = std::string(ex.what()) == "user function failed" ? "user_exception" : "exception"; o.g.s(o.cls); }
  return o;
}
static void emit_op(const std::string& id, const std::string& kind, const std::string& key, const std::string& shape, const Outcome& a, const Outcome& b, bool same, const Digest& va, const Digest& vb) {
  const bool vars = a.cls != "assertion" && b.cls != "assertion";
  emit(Obj{}.str("e", "op").str("scn", id).str("kind", kind).str("shape", shape).str("key", fnv(key)).str("cls", a.cls).str("cls2", b.cls)
           .str("shared", fnv(a.g.t + (vars ? va.t : ""))).str("fresh", fnv(b.g.t + (vars ? vb.t : ""))).b("problem", same).i("poison", poison_byte));
}

static void qp_history(const std::string& id, Reader& r) {
  std::vector<std::unique_ptr<QP>> ps;
  for (int k = r.i(); k > 0; --k) ps.push_back(std::make_unique<QP>(read_qp(r)));
  QPInteriorPointSolver ip; QPNullSpaceSolver ns; const QP* current = nullptr;
  bool empty = true;   // the shared object has not seen a problem
  for (int k = r.i(); k > 0; --k) {
    const std::string op = r.tok(); const int pi = r.i(); const QP& q = *ps.at(pi);
    const std::string shape = std::to_string(q.G.rows()) + "/" + std::to_string(q.A_eq.rows()) + "/" + std::to_string(q.constraints.size());
    const std::string before = prob_digest(q);
    if (op == "ns") {
      Digest va, vb;
      QPNullSpaceSolver fresh;
      const Outcome a = attempt([&](Outcome& o) { const auto t = ns.Solve(q); o.cls = t == QPNullSpaceTerminationState::SUCCESS ? "success" : "failure"; o.g.i(static_cast<int>(t)); if (o.cls == "success") va.m(ns.variables()); });
      const Outcome b = attempt([&](Outcome& o) { const auto t = fresh.Solve(q); o.cls = t == QPNullSpaceTerminationState::SUCCESS ? "success" : "failure"; o.g.i(static_cast<int>(t)); if (o.cls == "success") vb.m(fresh.variables()); });
      emit_op(id, op, op + before, shape, a, b, before == prob_digest(q), va, vb);
      continue;
    }
    QPInteriorPointSolver::Params p{};
    Digest key;
    p.initial_mu = r.d(); p.sigma = r.d(); p.termination_kkt_tol = r.d(); p.termination_complementarity_tol = r.d(); p.max_iterations = r.i();
    const std::string strat = r.tok(), gs = r.tok();
    p.barrier_strategy = strat == "COMPLEMENTARITY" ? BarrierStrategy::COMPLEMENTARITY : strat == "FIXED_DECREASE" ? BarrierStrategy::FIXED_DECREASE : BarrierStrategy::PREDICTOR_CORRECTOR;
    p.initial_guess_method = gs == "NAIVE" ? InitialGuessMethod::NAIVE : gs == "SOLVE_EQUALITY_CONSTRAINED" ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::USER_PROVIDED;
    p.decrease_mu_only_on_small_error = r.i() != 0; p.initialize_mu_with_complementarity = r.i() != 0;
    Eigen::VectorXd user; if (gs == "USER_PROVIDED") user = r.vec();
    key.s("ip").s(before).d(p.initial_mu).d(p.sigma).d(p.termination_kkt_tol).d(p.termination_complementarity_tol).i(p.max_iterations).s(strat).s(gs).i(p.decrease_mu_only_on_small_error).i(p.initialize_mu_with_complementarity).m(user);
    const bool again = op == "ipre" && current == &q;
    const auto solve = [&](QPInteriorPointSolver& s, Outcome& o) {
      if (user.size()) s.SetVariables(user);
      const auto out = s.Solve(p);
      o.cls = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "success" : "unfinished";
      dig(o.g, out);
      const QPInteriorPointSolver& cs = s;
      o.g.m(cs.x_block()).m(cs.s_block()).m(cs.y_block()).m(cs.z_block());
    };
    Digest va, vb;
    std::unique_ptr<QPInteriorPointSolver> fresh;
    const Outcome a = attempt([&](Outcome& o) { if (!again) { ip.Setup(&q); current = &q; empty = false; } solve(ip, o); });
    const Outcome b = attempt([&](Outcome& o) { fresh = std::make_unique<QPInteriorPointSolver>(&q); solve(*fresh, o); });
    if (fresh && !empty) { va.m(ip.variables()); vb.m(fresh->variables()); }
    if (a.cls == "exception" || b.cls == "exception") { va.t.clear(); vb.t.clear(); }
    emit_op(id, again ? "ipre" : "ip", key.t, shape, a, b, before == prob_digest(q), va, vb);
  }
}

static void nls_history(const std::string& id, Reader& r) {
  NlsProblem P; P.read(r);
  P.rec.on = false;
  const auto all = P.problem.inequality_constraints;
  NLS shared(&P.problem, P.retraction());
  for (int k = r.i(); k > 0; --k) {
    const std::string op = r.tok();
    const int mask = r.i();
    P.problem.inequality_constraints.clear();
    for (std::size_t q = 0; q < all.size(); ++q) if (mask & (1 << q)) P.problem.inequality_constraints.push_back(all[q]);
    const Eigen::VectorXd x0 = r.vec();
    NLS::Params par = P.par;
    int throw_at = -1, cbstop = -1;
    if (op == "solve") {
      par.max_iterations = r.i(); par.max_line_search_iterations = r.i(); par.line_search_strategy = r.i() ? LineSearchStrategy::POLYNOMIAL_APPROXIMATION : LineSearchStrategy::ARMIJO_BACKTRACK;
      par.lambda_initial = r.d(); par.log_qp_eigenvalues = r.i() != 0; throw_at = r.i(); cbstop = r.i();
    }
    Digest key; key.s(id.substr(0, id.find('@'))).s(op).i(mask).m(x0).i(par.max_iterations).i(par.max_line_search_iterations).i(static_cast<int>(par.line_search_strategy)).d(par.lambda_initial).i(par.log_qp_eigenvalues).i(throw_at).i(cbstop);
    const std::string before = prob_digest(P.problem);
    const auto go = [&](NLS& n, Outcome& o, Digest& v) {
      for (auto& s : P.specs) s->throw_at = throw_at;
      P.rec.calls = 0;
      int ncb = 0; std::string seen;
      n.SetUserExitCallback([&](const NLSIteration& it) { Digest c; c.m(n.variables()).i(it.iteration).i(it.line_search_steps.size()); seen += c.t; return !(cbstop >= 0 && ncb++ >= cbstop); });
      try {
        if (op == "eval") { const Errors e = n.EvaluateNonlinearErrors(x0); o.cls = "value"; o.g.d(e.f).d(e.equality); }
        else {
          const NLSSolverOutputs out = n.Solve(par, x0);
          o.cls = TerminationStateIndicatesSatisfiedTol(out.termination_state) ? "success" : out.termination_state == NLSTerminationState::USER_CALLBACK ? "stopped" : "unfinished";
          dig(o.g, out); v.m(n.variables());
        }
      } catch (const assert::default_error&) { throw; }
      catch (const std::exception&) { v.m(n.variables()); n.SetUserExitCallback(nullptr); o.g.s(seen).i(P.rec.calls); throw; }
      n.SetUserExitCallback(nullptr);
      o.g.s(seen).i(P.rec.calls);
    };
    Digest va, vb;
    NLS fresh(&P.problem, P.retraction());
    const Outcome a = attempt([&](Outcome& o) { go(shared, o, va); });
    const Outcome b = attempt([&](Outcome& o) { go(fresh, o, vb); });
    emit_op(id, op, key.t, P.problem.inequality_constraints.empty() ? P.problem.equality_constraints.empty() ? "plain" : "eq" : P.problem.equality_constraints.empty() ? "bounds" : "both", a, b, before == prob_digest(P.problem), va, vb);
  }
}

int main(int, char** argv) {
  if (const char* e = std::getenv("POISON")) poison_byte = std::atoi(e);
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok(), kind = r.tok();
    if (kind == "qp") qp_history(id, r); else { r.expect("NLS"); nls_history(id, r); }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

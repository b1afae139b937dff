// The same solve, unobserved and under every way of watching it.
#include <atomic>
#include <thread>
#include <type_traits>
#include "digest.hpp"
#include "mini_opt/serialization.hpp"
#include "mini_opt/tracing.hpp"
#ifdef MINI_OPT_SERIALIZATION
#include <nlohmann/json.hpp>
#endif
using namespace vh;

static const char* build_name() {
#if defined(MINI_OPT_TRACING) && defined(MINI_OPT_SERIALIZATION) && defined(NDEBUG)
  return "full";
#elif defined(MINI_OPT_TRACING) && defined(NDEBUG)
  return "traced";
#elif defined(MINI_OPT_SERIALIZATION) && defined(NDEBUG)
  return "serial";
#elif defined(NDEBUG)
  return "bare";
#else
  return "debug";
#endif
}
static std::size_t sink = 0;   // what the observers read
static void read_traces() {
#ifdef MINI_OPT_TRACING
  sink += mini_opt::trace_collector::get_instance()->get_trace_json().size();
#endif
}
template <class T> static void format(const T& v) {
  sink += v.ToString(false, true).size() + v.ToString(true, false).size();
}

struct Tell { std::string entry, held; std::size_t calls; bool eig; };
struct Seen { std::vector<std::string> calls, log; std::vector<Tell> tells; std::vector<std::string> eigs; std::string term, final; bool untouched, flat = false; };

static std::string entry(const NLSIteration& it) { NLSIteration c = it; c.qp_eigenvalues.reset(); Digest g; dig(g, c); return fnv(g.t); }
static std::string params_digest(const NLS::Params& q) {
  Digest g; g.i(q.max_iterations).i(q.max_qp_iterations).d(q.termination_kkt_tolerance).d(q.absolute_exit_tol).d(q.relative_exit_tol).d(q.absolute_first_derivative_tol).i(q.max_line_search_iterations)
      .i(static_cast<int>(q.line_search_strategy)).d(q.armijo_search_tau).d(q.equality_penalty_initial).d(q.equality_penalty_scale_factor).d(q.equality_penalty_rho).d(q.lambda_initial).d(q.lambda_failure_init)
      .d(q.lambda_decrease_on_success).d(q.lambda_decrease_on_restore).d(q.max_lambda).d(q.min_lambda).i(q.log_qp_eigenvalues);
  return g.t;
}

static Seen solve(NlsProblem& P, const std::string& mode, bool first) {
  Seen out;
  NLS nls(&P.problem, P.retraction());
  const bool eig = mode == "eig" || mode == "eig_tell" || mode == "all", tell = mode == "tell" || mode == "eig_tell" || mode == "heavy" || mode == "all", heavy = mode == "heavy" || mode == "all", peek = mode == "peek" || mode == "all",
             side = mode == "side" && first;
  P.rec.calls = 0; for (auto& s : P.rec.scripts) { s.second.it = -1; s.second.tr = 0; }
  P.rec.dx.resize(0); P.rec.alpha = 1;
  P.rec.on = true; P.rec.items.clear(); P.rec.force = true;   // the recorder keeps the arguments of every call
  std::size_t ncalls = 0;
  P.rec.hook = [&](const char* k) {
    ++ncalls;
    Digest g; g.s(k).i(P.rec.items.size());
    if (!P.rec.items.empty()) { const Item& it = P.rec.items.back(); if (it.type == 0) { g.i(it.g.jac).i(it.g.calls.size()); for (const auto& c : it.g.calls) g.i(c.first).m(c.second.p); } }
    if (std::string(k) == "move") g.m(P.rec.dx).d(P.rec.alpha);
    out.calls.push_back(fnv(g.t));
    if (peek) { const Eigen::VectorXd copy = nls.variables(); sink += copy.size(); }
  };
  if (tell) nls.SetUserExitCallback([&](const NLSIteration& it) {
    Digest h; h.m(static_cast<const NLS&>(nls).variables());
    out.tells.push_back(Tell{entry(it), fnv(h.t), ncalls, it.qp_eigenvalues.has_value()});
    if (heavy) {
      NLSIteration copy = it; format(it); format(copy);
      copy.line_search_steps.clear(); copy.penalty = -1;
#ifdef MINI_OPT_SERIALIZATION
      { const NLSSolverOutputs o(NLSTerminationState::USER_CALLBACK, {it}); sink += nlohmann::json(o).dump().size(); }
#endif
      if (first && out.tells.size() == 1) read_traces();
    }
    return true;
  });
  NLS::Params par = P.par; par.log_qp_eigenvalues = eig;
  const Eigen::VectorXd x0 = P.x0;
  Digest b; b.s(prob_digest(P.problem)).s(params_digest(par)).m(x0);
  std::atomic<bool> stop{false}; std::thread watcher;
  if (side) watcher = std::thread([&] { while (!stop) { read_traces(); std::this_thread::yield(); } });
  try {
    const NLSSolverOutputs o = nls.Solve(par, x0);
    out.term = nls_term(o.termination_state);
    for (const auto& it : o.iterations) { out.log.push_back(entry(it)); Digest g; if (it.qp_eigenvalues) out.flat |= it.qp_eigenvalues->min <= 0; if (it.qp_eigenvalues) g.d(it.qp_eigenvalues->min).d(it.qp_eigenvalues->max).d(it.qp_eigenvalues->abs_min); out.eigs.push_back(it.qp_eigenvalues ? fnv(g.t) : "none"); }
    if (heavy) { const NLSSolverOutputs copy = o; format(copy);
#ifdef MINI_OPT_SERIALIZATION
      sink += nlohmann::json(o).dump().size();
#endif
    }
  } catch (const assert::default_error&) { out.term = "assertion"; }
  catch (const std::exception&) { out.term = "exception"; }
  stop = true; if (watcher.joinable()) watcher.join();
  Digest a; a.s(prob_digest(P.problem)).s(params_digest(par)).m(x0);
  out.untouched = a.t == b.t;
  Digest g; g.m(static_cast<const NLS&>(nls).variables()); out.final = fnv(g.t);
  return out;
}

static Seen inner(const QP& qp, int variant, const std::string& mode) {
  Seen out; const std::string before = prob_digest(qp);
  const bool read = mode == "heavy" || mode == "all" || mode == "peek", eig = mode == "eig" || mode == "all";
  Digest fin;
  try {
    if (eig) { const QPEigenvalues e = qp.ComputeEigenvalueStats(); sink += e.min < e.max; }
    if (variant < 0) {
      QPNullSpaceSolver s; const auto t = s.Solve(qp); out.term = t == QPNullSpaceTerminationState::SUCCESS ? "SUCCESS" : "NOT_POSITIVE_DEFINITE";
      if (read) { const QPNullSpaceSolver copy = s; sink += copy.variables().size(); }
      if (t == QPNullSpaceTerminationState::SUCCESS) fin.m(s.variables());
    } else {
      QPInteriorPointSolver s; s.Setup(&qp);
      const QPInteriorPointSolver& cs = s;
      if (read) { sink += cs.x_block().size() + cs.s_block().size() + cs.y_block().size() + cs.z_block().size() + cs.problem().G.rows(); }
      QPInteriorPointSolver::Params p{};
      p.initial_mu = 1.0; p.sigma = variant % 2 ? 0.1 : 0.5; p.max_iterations = 1 + variant % 13;
      p.barrier_strategy = static_cast<BarrierStrategy>(variant % 3);
      p.initial_guess_method = variant % 5 < 3 ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
      p.initialize_mu_with_complementarity = variant % 7 == 0;
      const auto o = s.Solve(p);
      if (eig) { const QPEigenvalues e = qp.ComputeEigenvalueStats(); sink += e.min < e.max; }
      if (read) { const QPInteriorPointSolverOutputs c = o; sink += cs.x_block().size(); for (const auto& it : c.iterations) sink += it.ToString().size(); }
      out.term = o.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "SATISFIED_KKT_TOL" : "MAX_ITERATIONS";
      Digest g; dig(g, o); out.log.push_back(fnv(g.t));
      fin.m(cs.x_block()).m(cs.s_block()).m(cs.y_block()).m(cs.z_block());
    }
  } catch (const assert::default_error&) { out.term = "assertion"; }
  catch (const std::exception&) { out.term = "exception"; }
  out.final = fnv(fin.t); out.untouched = before == prob_digest(qp);
  return out;
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  static const std::vector<std::string> modes = {"none", "eig", "tell", "eig_tell", "heavy", "peek", "side", "all"};
  int count = 0;
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok(), kind = r.tok();
    std::unique_ptr<NlsProblem> P; QP qp; int variant = 0;
    if (kind == "qp") { qp = read_qp(r); variant = r.i(); } else { r.expect("NLS"); P = std::make_unique<NlsProblem>(); P->read(r); }
    ++count;
    for (const auto& m : modes) {
      if (kind == "qp" && (m == "tell" || m == "eig_tell" || m == "side")) continue;
      const Seen s = P ? solve(*P, m, count % 8 == 1) : inner(qp, variant, m);
      const auto quoted = [](const std::vector<std::string>& v) { std::vector<std::string> o; for (const auto& x : v) o.push_back(Obj::quote(x)); return Obj::join(o); };
      std::vector<std::string> ts;
      for (const Tell& t : s.tells) ts.push_back(Obj{}.str("entry", t.entry).str("held", t.held).i("calls", t.calls).b("eig", t.eig).done());
      emit_nf(Obj{}.str("e", "run").str("scn", id).str("kind", kind == "qp" ? (variant < 0 ? "ns" : "ip") : "nls").str("build", build_name()).str("mode", m).raw("calls", quoted(s.calls)).raw("tells", Obj::join(ts))
               .raw("log", quoted(s.log)).raw("eigs", quoted(s.eigs)).str("term", s.term).str("final", s.final).b("untouched", s.untouched).b("eqs", P ? !P->problem.equality_constraints.empty() : qp.A_eq.rows() > 0)
               .b("ineq", P ? !P->problem.inequality_constraints.empty() : !qp.constraints.empty()).b("flat", s.flat).b("retr", P && P->retr != "none"));
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return sink == 42 ? 7 : 0;
}

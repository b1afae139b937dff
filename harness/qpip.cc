// Runs the interior point solver: budget k = 1, 2, ... on each scenario, logging the state after every run.
#include "common.hpp"
#include "mini_opt/qp.hpp"
using namespace mini_opt;
using namespace vh;

static BarrierStrategy strategy(const std::string& s) {
  if (s == "COMPLEMENTARITY") return BarrierStrategy::COMPLEMENTARITY;
  if (s == "FIXED_DECREASE") return BarrierStrategy::FIXED_DECREASE;
  return BarrierStrategy::PREDICTOR_CORRECTOR;
}
static InitialGuessMethod guess(const std::string& s) {
  if (s == "NAIVE") return InitialGuessMethod::NAIVE;
  if (s == "SOLVE_EQUALITY_CONSTRAINED") return InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
  return InitialGuessMethod::USER_PROVIDED;
}
static const char* term_name(QPInteriorPointTerminationState t) {
  return t == QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "SATISFIED_KKT_TOL" : t == QPInteriorPointTerminationState::MAX_ITERATIONS ? "MAX_ITERATIONS" : "?";
}
static std::string kkt(const KKTError& e) {
  return Obj{}.n("d", e.r_dual).n("c", e.r_comp).n("e", e.r_primal_eq).n("i", e.r_primal_ineq).done();
}
static std::string entry(const QPInteriorPointIteration& it) {
  return Obj{}.raw("k0", kkt(it.kkt_initial)).raw("k1", kkt(it.kkt_final)).n("mu", it.ip_outputs.mu)
      .n("ap", it.ip_outputs.alpha.primal).n("ad", it.ip_outputs.alpha.dual)
      .n("pp", it.ip_outputs.alpha_probe.primal).n("pd", it.ip_outputs.alpha_probe.dual)
      .n("ma", it.ip_outputs.mu_affine).done();
}

static std::string run_digest(const QPInteriorPointSolver& s, const QPInteriorPointSolverOutputs* o) {
  std::string t = o ? term_name(o->termination_state) : "raised";
  if (o) for (const auto& it : o->iterations) t += entry(it);
  for (int k = 0; k < s.variables().size(); ++k) t += num(s.variables()[k]) + " ";
  return fnv(t);
}
static std::string attempt(QPInteriorPointSolver& s, const QPInteriorPointSolver::Params& p) {
  try { const auto o = s.Solve(p); return run_digest(s, &o); } catch (const std::exception&) { return run_digest(s, nullptr); }
}
static bool equal(const Eigen::VectorXd& a, const Eigen::VectorXd& b) { if (a.size() != b.size()) return false; for (int k = 0; k < a.size(); ++k) if (num(a[k]) != num(b[k])) return false; return true; }

// Warm starts: the next solve with a user provided guess begins where the variables are.
static void warm(const std::string& id, const QP& qp, QPInteriorPointSolver::Params p, const Eigen::VectorXd& user, int budget) {
  QPInteriorPointSolver a(&qp);
  if (user.size()) a.SetVariables(user);
  p.max_iterations = 1 + budget % 3;
  const std::string first = attempt(a, p);
  const Eigen::VectorXd left = a.variables();
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  p.max_iterations = 2;
  const std::string cont = attempt(a, p);
  QPInteriorPointSolver b(&qp);
  b.SetVariables(left);
  const bool kept = equal(b.variables(), left);
  const std::string set = attempt(b, p);
  // The same point written through the blocks of an object that holds something else.
  QPInteriorPointSolver c(&qp);
  c.SetVariables(Eigen::VectorXd::Constant(left.size(), 0.75));
  const int N = qp.G.rows(), M = qp.constraints.size(), K = qp.A_eq.rows();
  c.x_block() = left.head(N); c.s_block() = left.segment(N, M); c.y_block() = left.segment(N + M, K); c.z_block() = left.tail(M);
  const bool blocks = equal(c.variables(), left);
  const std::string byblock = attempt(c, p);
  emit(Obj{}.str("e", "warm").str("scn", id).str("first", first).str("cont", cont).str("set", set).str("blocks", byblock).b("kept", kept).b("written", blocks).b("bounded", M > 0));
}

// Tolerances next to what iteration j leaves: the KKT tolerance at fk times the largest residual norm, the complementarity
// tolerance at fc times the average product (0: out of the way).  Only chooses parameters; nothing here is an oracle.
static void adapt(const QP& qp, QPInteriorPointSolver::Params& p, const Eigen::VectorXd& user, int j, double fk, double fc) {
  QPInteriorPointSolver::Params q = p;
  q.max_iterations = j; q.termination_kkt_tol = 1e-300; q.termination_complementarity_tol = 0;
  QPInteriorPointSolver a(&qp);
  if (user.size()) a.SetVariables(user);
  double mu = q.initial_mu;
  try { const auto o = a.Solve(q); if (!o.iterations.empty()) mu = o.iterations.back().ip_outputs.mu; } catch (const std::exception&) { return; }
  const int M = qp.constraints.size();
  const Eigen::VectorXd x = a.x_block(), s = a.s_block(), y = a.y_block(), z = a.z_block();
  Eigen::VectorXd d = qp.G.selfadjointView<Eigen::Lower>() * x + qp.c, pi(M), co(M);
  double e = 0;
  if (qp.A_eq.rows()) { d -= qp.A_eq.transpose() * y; e = (qp.A_eq * x + qp.b_eq).norm(); }
  for (int i = 0; i < M; ++i) { const auto& c = qp.constraints[i]; d[c.variable] -= c.a * z[i]; pi[i] = c.a * x[c.variable] + c.b - s[i]; co[i] = s[i] * z[i] - mu; }
  const double worst = std::max(std::max(d.norm(), e), std::max(pi.norm(), co.norm())), mean = M ? s.dot(z) / M : 0;
  const double kk = fk > 0 ? fk * worst : 1e6, cc = fc > 0 ? fc * mean : 1e6;
  if (std::isfinite(kk) && kk > 1e-11) p.termination_kkt_tol = kk;
  if (std::isfinite(cc) && cc > 1e-14) p.termination_complementarity_tol = cc;
}

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok();
    QP qp;
    qp.G = r.mat();
    qp.c = r.vec();
    const Eigen::MatrixXd A = r.mat();
    const Eigen::VectorXd b = r.vec();
    if (A.rows() > 0) { qp.A_eq = A; qp.b_eq = b; }
    const int M = r.i();
    std::vector<std::string> cons;
    for (int k = 0; k < M; ++k) {
      const int v = r.i(); const double a = r.d(), bb = r.d();
      qp.constraints.emplace_back(v, a, bb);
      cons.push_back(Obj{}.i("v", v + 1).n("a", a).n("b", bb).done());
    }
    QPInteriorPointSolver::Params p{};
    p.initial_mu = r.d(); p.sigma = r.d(); p.termination_kkt_tol = r.d(); p.termination_complementarity_tol = r.d();
    const int budget = r.i();
    const std::string strat = r.tok(), gs = r.tok();
    p.barrier_strategy = strategy(strat);
    p.initial_guess_method = guess(gs);
    p.decrease_mu_only_on_small_error = r.i() != 0;
    p.initialize_mu_with_complementarity = r.i() != 0;
    const std::string tag = r.tok();      // what is known about the scenario (class)
    const int sparse = r.i();             // 1: only the final budget
    const int aj = r.i(); const double fk = r.d(), fc = r.d();
    Eigen::VectorXd user;
    if (gs == "USER_PROVIDED") user = r.vec();
    if (aj > 0) adapt(qp, p, user, aj, fk, fc);
    {
      Obj o;
      o.str("e", "start").str("scn", id).i("N", qp.G.rows()).i("M", M).i("K", A.rows()).m("G", qp.G).v("c", qp.c).m("A", A).v("b", b)
          .raw("ineq", Obj::join(cons)).n("mu0", p.initial_mu).n("sigma", p.sigma).n("kktTol", p.termination_kkt_tol)
          .n("compTol", p.termination_complementarity_tol).i("budget", budget).str("strat", strat).str("guess", gs)
          .b("gate", p.decrease_mu_only_on_small_error).b("initComp", p.initialize_mu_with_complementarity).str("tag", tag).b("every", sparse == 0);
      const int N = qp.G.rows(), K = A.rows();
      if (user.size()) o.v("x", user.head(N).eval()).v("s", user.segment(N, M).eval()).v("y", user.segment(N + M, K).eval()).v("z", user.tail(M).eval());
      else o.raw("x", "[]").raw("s", "[]").raw("y", "[]").raw("z", "[]");
      emit(o);
    }
    std::string prev_hash = "none";
    for (int k = sparse ? budget : 1; k <= budget; ++k) {
      p.max_iterations = k;
      QPInteriorPointSolver solver(&qp);
      if (user.size()) solver.SetVariables(user);
      try {
        const QPInteriorPointSolverOutputs out = solver.Solve(p);
        std::string pre, full;
        for (std::size_t q = 0; q < out.iterations.size(); ++q) { full += entry(out.iterations[q]); if (q + 1 < out.iterations.size()) pre = full; }
        Obj o;
        o.str("e", "ret").str("scn", id).i("k", k).str("term", term_name(out.termination_state)).i("len", out.iterations.size())
            .str("pre", fnv(pre)).str("full", fnv(full))
            .v("x", solver.x_block()).v("s", solver.s_block()).v("y", solver.y_block()).v("z", solver.z_block());
        if (out.lagrange_multipliers) o.raw("lag", "[\"" + num(out.lagrange_multipliers->min) + "\",\"" + num(out.lagrange_multipliers->l_infinity) + "\"]"); else o.raw("lag", "[]");
        o.raw("it", out.iterations.empty() ? std::string("[]") : "[" + entry(out.iterations.back()) + "]");
        emit(o);
        if (out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL && k < budget) {
          // one more run with the full budget, then stop
          p.max_iterations = budget + 2;
          QPInteriorPointSolver again(&qp);
          if (user.size()) again.SetVariables(user);
          const QPInteriorPointSolverOutputs o2 = again.Solve(p);
          std::string full2; for (const auto& it : o2.iterations) full2 += entry(it);
          emit(Obj{}.str("e", "rerun").str("scn", id).str("term", term_name(o2.termination_state)).i("len", o2.iterations.size()).str("full", fnv(full2))
                   .b("same", again.variables().size() == solver.variables().size() && (again.variables().array() == solver.variables().array()).all()));
          break;
        }
      } catch (const std::exception& ex) {
        emit(Obj{}.str("e", "exc").str("scn", id).i("k", k).str("what", std::string(ex.what()).substr(0, 80)));
        break;
      }
    }
    if (tag == "start") warm(id, qp, p, user, budget);
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

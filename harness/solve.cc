// Runs the nonlinear solver on problems with a known solution and records the problem at the solution, at the start and at the result.
#include "nls.hpp"
using namespace vh;

static std::string calls_at(const NlsProblem& P, Recorder& rec, const Eigen::VectorXd& x) {
  std::vector<std::string> out;
  for (const auto& s : P.specs) {
    Eigen::VectorXd p(s->P), e; Eigen::MatrixXd J;
    for (int k = 0; k < s->P; ++k) p[k] = x[s->idx[k]];
    evaluate(*s, rec, p, e, J, true);
    out.push_back(Obj{}.i("id", s->id + 1).v("p", p).v("e", e).m("J", J).done());
  }
  return Obj::join(out);
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    NlsProblem P; P.read(r);
    r.expect("SOL");
    const Eigen::VectorXd xs = r.vec();
    const int calls = r.i();      // solves one after another, each from the result of the previous one moved by the next vector
    std::vector<Eigen::VectorXd> moves; for (int k = 1; k < calls; ++k) moves.push_back(r.vec());
    std::vector<std::string> exp;  // the outcomes of the model
    const int ne = r.i();
    for (int k = 0; k < ne; ++k) { Obj o; o.str("term", r.tok()); o.i("n", r.i()); o.v("x", r.vec()); exp.push_back(o.done()); }
    {
      Obj o; std::vector<std::string> ic, ie, cu;
      for (const auto& s : P.specs) {
        std::vector<std::string> ix, qs; for (int v : s->idx) ix.push_back(std::to_string(v + 1));
        for (const auto& Q : s->Q) { const Eigen::MatrixXd H = Q + Q.transpose(); qs.push_back(Obj::arr2(H)); }
        (s->eq ? ie : ic).push_back(Obj{}.i("id", s->id + 1).i("R", s->R).raw("idx", Obj::join(ix)).done());
        cu.push_back(Obj::join(qs));
      }
      const auto& q = P.par;
      o.str("e", "start").str("scn", P.id).i("n", P.problem.dimension).raw("costs", Obj::join(ic)).raw("eqs", Obj::join(ie)).raw("ineq", Obj::join(P.bounds)).str("retr", P.retr)
          .raw("par", Obj{}.i("maxIter", q.max_iterations).i("maxQp", q.max_qp_iterations).n("kktTol", q.termination_kkt_tolerance).n("absTol", q.absolute_exit_tol).n("relTol", q.relative_exit_tol)
               .n("gradTol", q.absolute_first_derivative_tol).i("maxLS", q.max_line_search_iterations).str("ls", q.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK ? "ARMIJO_BACKTRACK" : "POLYNOMIAL_APPROXIMATION")
               .n("lam0", q.lambda_initial).n("lamFail", q.lambda_failure_init).n("maxLam", q.max_lambda).done())
          .raw("expect", Obj::join(exp)).v("xs", xs).raw("curv", Obj::join(cu)).raw("lin", calls_at(P, P.rec, xs));
      emit(o);
    }
    P.rec.on = false;
    NLS nls(&P.problem, P.retraction());
    Eigen::VectorXd x0 = P.x0;
    for (int c = 0; c < calls; ++c) {
      if (c > 0) { x0 = nls.variables() + moves[c - 1]; }
      Obj o; o.str("e", "solved").str("scn", P.id).i("call", c + 1).v("x0", x0);
      try {
        const auto out = nls.Solve(P.par, x0);
        int open = 0;  // inner interior point runs that did not finish
        for (const auto& it : out.iterations)
          if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs)) open += ip->termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
        o.str("term", nls_term(out.termination_state)).i("n", out.iterations.size()).i("open", open);
      } catch (const std::exception& ex) { o.str("term", "exception").i("n", 0).i("open", 0); }
      o.v("x", nls.variables()).raw("lin", calls_at(P, P.rec, nls.variables()));
      emit_nf(o);
    }
    emit(Obj{}.str("e", "end").str("scn", P.id));
  }
  return 0;
}

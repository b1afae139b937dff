// Runs the nonlinear solver on scenarios and records every evaluation, retraction, callback and log entry.
#include "nls.hpp"
using namespace vh;

static std::string call_list(const Group& g, bool jac) {
  std::vector<std::string> out;
  for (const auto& [id, c] : g.calls) { Obj o; o.i("id", id + 1).v("p", c.p).v("e", c.e); if (jac) o.m("J", c.J); out.push_back(o.done()); }
  return Obj::join(out);
}
static std::string full_x(const Group& g) {
  std::string r{"["};
  for (std::size_t k = 0; k < g.x.size(); ++k) { if (k) r += ','; r += "\"" + (g.x[k] ? num(*g.x[k]) : std::string("nan")) + "\""; }
  return r + "]";
}

struct IterBuf { const Group* lin{nullptr}; std::vector<const Group*> tries; std::vector<const Retr*> retr; const Item* cb{nullptr}; };

static void emit_iter(const std::string& id, const char* kind, int k, const IterBuf& b, const NLSIteration* rec) {
  Obj o; o.str("e", kind).str("scn", id).i("k", k);
  if (b.lin) o.raw("x", full_x(*b.lin)).raw("lin", call_list(*b.lin, true)); else o.raw("x", "[]").raw("lin", "[]");
  std::vector<std::string> t, r;
  for (const Group* g : b.tries) t.push_back(Obj{}.raw("x", full_x(*g)).raw("c", call_list(*g, false)).done());
  for (const Retr* q : b.retr) r.push_back(Obj{}.v("xin", q->xin).v("dx", q->dx).n("a", q->a).v("xout", q->xout).done());
  o.raw("tries", Obj::join(t)).raw("retr", Obj::join(r));
  if (rec) { const std::string j = record_json(*rec); o.raw("rec", "[" + j + "]").b("cbsame", b.cb == nullptr || b.cb->rec == j); }
  else o.raw("rec", b.cb ? "[" + b.cb->rec + "]" : std::string("[]")).b("cbsame", true);
  o.b("cb", b.cb != nullptr).b("answer", b.cb ? b.cb->answer : true);
  if (b.cb) o.v("vars", b.cb->vars); else o.raw("vars", "[]");
  emit_nf(o);
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    NlsProblem P; P.read(r);
    {
      Obj o; std::vector<std::string> ic, ie;
      for (const auto& s : P.specs) { std::vector<std::string> ix; for (int v : s->idx) ix.push_back(std::to_string(v + 1)); (s->eq ? ie : ic).push_back(Obj{}.i("id", s->id + 1).i("R", s->R).raw("idx", Obj::join(ix)).done()); }
      const auto& q = P.par;
      o.str("e", "start").str("scn", P.id).str("tag", P.tag).i("n", P.problem.dimension).raw("costs", Obj::join(ic)).raw("eqs", Obj::join(ie)).raw("ineq", Obj::join(P.bounds)).str("retr", P.retr).b("cbset", P.cbmode != 0)
          .raw("par", Obj{}.i("maxIter", q.max_iterations).i("maxQp", q.max_qp_iterations).n("kktTol", q.termination_kkt_tolerance).n("absTol", q.absolute_exit_tol).n("relTol", q.relative_exit_tol)
               .n("gradTol", q.absolute_first_derivative_tol).i("maxLS", q.max_line_search_iterations).str("ls", q.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK ? "ARMIJO_BACKTRACK" : "POLYNOMIAL_APPROXIMATION")
               .n("tau", q.armijo_search_tau).n("pen0", q.equality_penalty_initial).n("penScale", q.equality_penalty_scale_factor).n("rho", q.equality_penalty_rho).n("lam0", q.lambda_initial)
               .n("lamFail", q.lambda_failure_init).n("decS", q.lambda_decrease_on_success).n("decR", q.lambda_decrease_on_restore).n("maxLam", q.max_lambda).n("minLam", q.min_lambda).b("eig", q.log_qp_eigenvalues).done())
          .v("x0", P.x0).raw("expect", Obj::join(P.expect));
      emit(o);
    }
    NLS nls(&P.problem, P.retraction());
    int ncb = 0;
    if (P.cbmode) nls.SetUserExitCallback([&](const NLSIteration& it) {
      Item c{}; c.type = 2; c.rec = record_json(it); c.answer = !(P.cbstop >= 0 && ncb >= P.cbstop); c.vars = nls.variables();
      ncb++; P.rec.items.push_back(c); P.rec.force = true;
      return c.answer;
    });
    std::optional<NLSSolverOutputs> out; std::string what;
    try { out = nls.Solve(P.par, P.x0); } catch (const std::exception& ex) { what = ex.what(); }
    // Cut the recorded evaluations into iterations: each starts with a linearisation.
    std::vector<IterBuf> bufs;
    for (const Item& it : P.rec.items) {
      if (it.type == 0 && it.g.jac) { bufs.emplace_back(); bufs.back().lin = &it.g; }
      else if (bufs.empty()) continue;
      else if (bufs.back().cb != nullptr) continue;   // between the callback and the next linearisation
      else if (it.type == 0) bufs.back().tries.push_back(&it.g);
      else if (it.type == 1) bufs.back().retr.push_back(&it.r);
      else bufs.back().cb = &it;
    }
    const int logged = out ? static_cast<int>(out->iterations.size()) : ncb;
    for (int k = 0; k < logged; ++k) emit_iter(P.id, "iter", k + 1, k < static_cast<int>(bufs.size()) ? bufs[k] : IterBuf{}, out ? &out->iterations[k] : nullptr);
    const bool tail = static_cast<int>(bufs.size()) > logged;
    if (tail) emit_iter(P.id, "tail", logged + 1, bufs[logged], nullptr);
    Obj o; o.str("scn", P.id).i("n", logged).i("bufs", bufs.size()).i("ncb", ncb).v("vars", nls.variables());
    if (out) {
      o.str("e", "ret").str("term", nls_term(out->termination_state));
      P.rec.on = false;
      const Errors e = nls.EvaluateNonlinearErrors(nls.variables());
      o.n("f", e.f).n("q", e.equality);
    } else o.str("e", "exc").str("what", what.substr(0, 100));
    emit_nf(o);
    if (out && P.tag == "linear") {   // the problem at the returned point, evaluated by the harness
      Group g{}; g.jac = true; g.x.resize(P.rec.n);
      const Eigen::VectorXd x = nls.variables();
      for (const auto& s : P.specs) { Call c; c.p.resize(s->P); for (int k = 0; k < s->P; ++k) c.p[k] = x[s->idx[k]]; evaluate(*s, P.rec, c.p, c.e, c.J, true); g.calls[s->id] = c; }
      emit_nf(Obj{}.str("e", "opt").str("scn", P.id).v("x", x).raw("lin", call_list(g, true)).str("term", nls_term(out->termination_state)));
    }
    emit(Obj{}.str("e", "end").str("scn", P.id));
  }
  return 0;
}

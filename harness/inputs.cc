// Valid and malformed problems, parameters, guesses and calls. Built with AddressSanitizer.
#include <climits>
#include <functional>
#include <map>
#include <memory>
#include "common.hpp"
#include "mini_opt/nonlinear.hpp"

using namespace vh;
using namespace mini_opt;
using namespace Eigen;
using NLS = ConstrainedNonlinearLeastSquares;

template <class F> std::string outcome(F&& f) {
  try { f(); } catch (const assert::default_error&) { return "assert"; } catch (const std::exception&) { return "other"; } catch (...) { return "unknown"; }
  return "ok";
}
static std::string ints(const std::vector<int>& v) { std::vector<std::string> s; for (const int k : v) s.push_back(std::to_string(k)); return Obj::join(s); }
static std::string pair(const int a, const int b) { return "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }
static std::vector<int> list(Reader& r) { std::vector<int> v(r.i()); for (int& k : v) k = std::stoi(r.tok()); return v; }

// Evaluations of user functions; wrong: an argument that is not the part of the guess it should be.
struct Evals { long n{0}, wrong{0}; VectorXd guess; bool compare{false}; } g_ev;
static void seen(const VectorXd& x, const std::vector<int>& idx) {
  ++g_ev.n;
  if (!g_ev.compare) return;
  if (x.size() != static_cast<Index>(idx.size())) { ++g_ev.wrong; return; }
  for (Index k = 0; k < x.size(); ++k) if (idx[k] < 0 || idx[k] >= g_ev.guess.size() || !(x[k] == g_ev.guess[idx[k]])) ++g_ev.wrong;
}
// Dynamic residual of dimension 2: the sum of squares and the weighted sum of its arguments, shifted.
static Residual dyn(const std::vector<int>& idx) {
  return MakeResidual<2, Dynamic>(idx, [idx](const VectorXd& x, Matrix<double, 2, Dynamic>* J) {
    seen(x, idx);
    Vector2d r(-1, .5);
    for (Index k = 0; k < x.size(); ++k) { r[0] += (k + 1) * x[k]; r[1] += .1 * x[k] * x[k]; if (J) { (*J)(0, k) = k + 1; (*J)(1, k) = .2 * x[k]; } }
    return r;
  });
}
static Residual one(const std::vector<int>& idx) {
  return MakeResidual<1, Dynamic>(idx, [idx](const VectorXd& x, Matrix<double, 1, Dynamic>* J) {
    seen(x, idx);
    Matrix<double, 1, 1> r(-.3);
    for (Index k = 0; k < x.size(); ++k) { r[0] += x[k]; if (J) (*J)(0, k) = 1; }
    return r;
  });
}
template <int P> Residual fixed(const std::array<int, P>& idx) {
  const std::vector<int> v(idx.begin(), idx.end());
  return MakeResidual<2, P>(idx, [v](const Matrix<double, P, 1>& x, Matrix<double, 2, P>* J) {
    seen(x, v);
    Vector2d r(-1, .5);
    for (int k = 0; k < P; ++k) { r[0] += (k + 1) * x[k]; r[1] += .1 * x[k] * x[k]; if (J) { (*J)(0, k) = k + 1; (*J)(1, k) = .2 * x[k]; } }
    return r;
  });
}
// Identity cost on every variable, so that every subproblem is strictly convex.
static Residual near_(const int k, const double target) {
  return MakeResidual<1, 1>(std::array<int, 1>{k}, [k, target](const Matrix<double, 1, 1>& x, Matrix<double, 1, 1>* J) {
    seen(x, {k});
    if (J) (*J)(0, 0) = 1;
    return Matrix<double, 1, 1>(x[0] - target);
  });
}
template <class F> Residual scalar2(const int a, const int b, F f) {   // f(x, y, dx, dy)
  return MakeResidual<1, 2>(std::array<int, 2>{a, b}, [a, b, f](const Vector2d& x, Matrix<double, 1, 2>* J) {
    seen(x, {a, b});
    double da = 0, db = 0; const double v = f(x[0], x[1], da, db);
    if (J) { (*J)(0, 0) = da; (*J)(0, 1) = db; }
    return Matrix<double, 1, 1>(v);
  });
}
// Well-formed problems.
static Problem good(const int k, VectorXd* x0) {
  Problem p; p.dimension = k == 4 ? 1 : (k == 2 || k == 3) ? 3 : 2;
  *x0 = VectorXd::Constant(p.dimension, .4);
  const auto rosen = [](double x, double y, double& dx, double& dy) { dx = -20 * x; dy = 10; return 10 * (y - x * x); };
  const auto circle = [](double x, double y, double& dx, double& dy) { dx = 2 * x; dy = 2 * y; return x * x + y * y - 1; };
  if (k == 0 || k == 1) { p.costs.push_back(near_(0, 1)); p.costs.push_back(scalar2(0, 1, rosen)); *x0 = Vector2d(-1.2, 1); }
  if (k == 1) { p.inequality_constraints.push_back(Var(0) <= .5); p.inequality_constraints.push_back(Var(1) >= -1); }
  if (k == 2 || k == 3) { for (int j = 0; j < 3; ++j) p.costs.push_back(near_(j, j - .7)); p.equality_constraints.push_back(one({0, 1, 2})); }
  if (k == 3) { for (int j = 0; j < 3; ++j) p.inequality_constraints.push_back(Var(j) >= -1); p.inequality_constraints.push_back(Var(0) <= .9); }
  if (k == 4) p.costs.push_back(MakeResidual<2, 1>(std::array<int, 1>{0}, [](const Matrix<double, 1, 1>& x, Vector2d* J) { seen(x, {0}); if (J) *J = Vector2d(std::exp(x[0]), .1); return Vector2d(std::exp(x[0]) - 2, .1 * x[0]); }));
  if (k == 5) { p.costs.push_back(near_(0, 3)); p.costs.push_back(near_(1, .1)); p.equality_constraints.push_back(scalar2(0, 1, circle)); *x0 = Vector2d(.1, .3); }
  return p;
}

// Parameters by name.
static void set(NLS::Params& p, const std::string& f, const std::string& v) {
#define I(n) if (f == #n) { p.n = static_cast<int>(std::stol(v)); return; }
#define D(n) if (f == #n) { p.n = parse_num(v); return; }
  I(max_iterations) I(max_qp_iterations) I(max_line_search_iterations)
  D(termination_kkt_tolerance) D(absolute_exit_tol) D(relative_exit_tol) D(absolute_first_derivative_tol) D(armijo_search_tau) D(equality_penalty_initial)
  D(equality_penalty_scale_factor) D(equality_penalty_rho) D(lambda_initial) D(lambda_failure_init) D(lambda_decrease_on_success) D(lambda_decrease_on_restore) D(max_lambda) D(min_lambda)
  if (f == "strategy") { p.line_search_strategy = v == "armijo" ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION; return; }
  if (f == "eigenvalues") { p.log_qp_eigenvalues = v == "1"; return; }
  std::fprintf(stderr, "unknown field %s\n", f.c_str()); std::exit(3);
}
static std::string show(const NLS::Params& p) {
  Obj o;
#define SI(F) o.str(#F, std::to_string(p.F));
#define SD(F) o.n(#F, p.F);
  SI(max_iterations) SI(max_qp_iterations) SI(max_line_search_iterations)
  SD(termination_kkt_tolerance) SD(absolute_exit_tol) SD(relative_exit_tol) SD(absolute_first_derivative_tol) SD(armijo_search_tau) SD(equality_penalty_initial)
  SD(equality_penalty_scale_factor) SD(equality_penalty_rho) SD(lambda_initial) SD(lambda_failure_init) SD(lambda_decrease_on_success) SD(lambda_decrease_on_restore) SD(max_lambda) SD(min_lambda)
  return o.done();
}
using IPP = QPInteriorPointSolver::Params;
static void set(IPP& p, const std::string& f, const std::string& v) {
  I(max_iterations) D(initial_mu) D(sigma) D(termination_kkt_tol) D(termination_complementarity_tol)
  if (f == "strategy") { p.barrier_strategy = v == "0" ? BarrierStrategy::COMPLEMENTARITY : v == "1" ? BarrierStrategy::FIXED_DECREASE : BarrierStrategy::PREDICTOR_CORRECTOR; return; }
  if (f == "guess") { p.initial_guess_method = v == "0" ? InitialGuessMethod::NAIVE : v == "1" ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::USER_PROVIDED; return; }
  if (f == "gate") { p.decrease_mu_only_on_small_error = v == "1"; return; }
  if (f == "muinit") { p.initialize_mu_with_complementarity = v == "1"; return; }
  std::fprintf(stderr, "unknown field %s\n", f.c_str()); std::exit(3);
}
static std::string show(const IPP& p) { Obj o; SD(initial_mu) SD(sigma) SD(termination_kkt_tol) SD(termination_complementarity_tol) SI(max_iterations) return o.done(); }
template <class P> P read_params(Reader& r) { P p{}; for (int k = r.i(); k > 0; --k) { const std::string f = r.tok(), v = r.tok(); set(p, f, v); } return p; }

// A QP of the given shape: g rows cols c rows a rows cols b rows; bounds.
struct Shape { int gr, gc, c, ar, ac, b; std::vector<int> vars; bool zero{false}; };
static Shape read_shape(Reader& r) { Shape s; s.gr = r.i(); s.gc = r.i(); s.c = r.i(); s.ar = r.i(); s.ac = r.i(); s.b = r.i(); s.vars = list(r); s.zero = r.i() != 0; return s; }
static QP make(const Shape& s) {
  QP q;
  q.G = MatrixXd::Identity(s.gr, s.gc) * 2; q.c.resize(s.c); for (int k = 0; k < s.c; ++k) q.c[k] = k - 1.5;
  q.A_eq = MatrixXd::Identity(s.ar, s.ac); for (int k = 0; k < std::min(s.ar, s.ac); ++k) if (k + 1 < s.ac) q.A_eq(k, k + 1) = .5;
  q.b_eq.resize(s.b); for (int k = 0; k < s.b; ++k) q.b_eq[k] = -.25;
  for (std::size_t k = 0; k < s.vars.size(); ++k) q.constraints.emplace_back(s.vars[k], s.zero && k == 0 ? 0.0 : 1.0, 3.0);
  return q;
}
static std::string show(const Shape& s) { return Obj{}.raw("g", pair(s.gr, s.gc)).i("c", s.c).raw("a", pair(s.ar, s.ac)).i("b", s.b).raw("vars", ints(s.vars)).b("zero", s.zero).done(); }

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok(), kind = r.tok();
    if (kind == "nls") {   // problem, steps: guess dimension offset, parameters
      VectorXd x0; const int which = r.i(); const Problem p = good(which, &x0);
      NLS s(&p);
      int callbacks = 0; s.SetUserExitCallback([&](const NLSIteration&) { ++callbacks; return true; });
      const auto base = [&](NLS& t) { const auto o = t.Solve(NLS::Params{}, x0); std::string k = name_of(o.termination_state) + std::to_string(o.iterations.size()); for (Index j = 0; j < t.variables().size(); ++j) k += " " + num(t.variables()[j]); return k; };
      NLS fresh(&p); const std::string want = base(fresh);
      base(s);
      for (int k = r.i(); k > 0; --k) {
        const int off = r.i(); const auto prm = read_params<NLS::Params>(r);
        const VectorXd before = s.variables(); VectorXd guess = VectorXd::Constant(p.dimension + off, .25); if (off == 0) guess = x0;
        const VectorXd copy = guess;
        g_ev = Evals{}; callbacks = 0;
        const std::string out = outcome([&] { s.Solve(prm, guess); });
        const VectorXd after = s.variables();
        emit_nf(Obj{}.str("e", "nls").str("scn", id).raw("p", show(prm)).i("dim", p.dimension).i("guess", p.dimension + off).str("out", out).i("evals", g_ev.n).i("callbacks", callbacks)
                .b("same", before.size() == after.size() && (before.array() == after.array()).all()).b("caller", copy.size() == guess.size() && (copy.array() == guess.array()).all()).b("last", false).b("again", true));
      }
      const std::string got = outcome([&] { if (base(s) != want) throw 1; });
      emit_nf(Obj{}.str("e", "after").str("scn", id).b("again", got == "ok"));
    } else if (kind == "prob") {   // dim, costs, equalities, bounds, zero, null, moved, guess dimension
      Problem p; p.dimension = std::stoi(r.tok());
      std::vector<std::vector<int>> cs(r.i()); std::vector<int> types; for (auto& c : cs) { types.push_back(r.i()); c = list(r); }
      std::vector<std::vector<int>> es(r.i()); for (auto& c : es) c = list(r);
      const std::vector<int> vars = list(r); const bool zero = r.i(), null = r.i(), moved = r.i(); const int gd = r.i();
      const auto prm = read_params<NLS::Params>(r);
      for (std::size_t k = 0; k < cs.size(); ++k) p.costs.push_back(types[k] == 1 && cs[k].size() == 1 ? fixed<1>({cs[k][0]}) : types[k] == 1 && cs[k].size() == 2 ? fixed<2>({cs[k][0], cs[k][1]}) : dyn(cs[k]));
      for (int k = 0; k < std::min(p.dimension, 8); ++k) p.costs.push_back(near_(k, .1 * k));
      for (const auto& e : es) p.equality_constraints.push_back(one(e));
      if (moved && !p.costs.empty()) { Residual gone = std::move(p.costs.back()); }
      for (std::size_t k = 0; k < vars.size(); ++k) p.inequality_constraints.emplace_back(vars[k], zero && k == 0 ? 0.0 : 1.0, 5.0);
      std::vector<std::string> cj, ej; for (const auto& c : cs) cj.push_back(ints(c)); for (const auto& c : es) ej.push_back(ints(c));
      Obj o; o.str("e", "prob").str("scn", id).raw("prob", Obj{}.i("dim", p.dimension).raw("costs", Obj::join(cj)).raw("eqs", Obj::join(ej)).raw("vars", ints(vars)).b("zero", zero && !vars.empty()).b("null", null).b("moved", moved && p.dimension > 0).done()).i("guess", gd);
      VectorXd x(gd); for (int k = 0; k < gd; ++k) x[k] = .5 + .125 * k;
      const VectorXd copy = x;
      g_ev = Evals{}; g_ev.guess = x; g_ev.compare = true;
      std::unique_ptr<NLS> s; int callbacks = 0;
      o.str("ctor", outcome([&] { s = std::make_unique<NLS>(null ? nullptr : &p); }));
      std::string out = "none"; bool caller = true;
      if (s) {
        s->SetUserExitCallback([&](const NLSIteration&) { ++callbacks; g_ev.compare = false; return true; });
        // with the default parameters the first evaluations are at the guess; candidates are only evaluated after a valid subproblem
        const long n0 = g_ev.n; (void)n0;
        out = outcome([&] { s->Solve(prm, x); });
        caller = x.size() == copy.size() && (x.array() == copy.array()).all();
      }
      emit_nf(o.str("out", out).i("evals", g_ev.n).i("wrong", g_ev.wrong).i("callbacks", callbacks).b("caller", caller));
    } else if (kind == "ip") {   // shapes by name, then calls
      std::map<std::string, std::pair<Shape, QP>> qs;
      for (int k = r.i(); k > 0; --k) { const std::string n = r.tok(); Shape s = read_shape(r); QP q = make(s); qs[n] = {s, q}; }
      QPInteriorPointSolver s;
      const auto held = [&]() -> std::string { std::string h = "unknown"; const std::string o = outcome([&] { const QP* q = &s.problem(); for (auto& [n, v] : qs) if (&v.second == q) h = n; }); return o == "assert" ? "none" : h; };
      std::string user = "unset";
      for (int k = r.i(); k > 0; --k) {
        const std::string c = r.tok(); const std::string before = held();
        Obj o; o.str("e", "ip").str("scn", id).str("call", c).str("before", before);
        const auto shape_of = [&](const std::string& n) { return n == "none" || n == "unknown" ? show(Shape{0, 0, 0, 0, 0, 0, {}, false}) : show(qs.at(n).first); };
        if (c == "setup") {
          const std::string n = r.tok(); const bool null = n == "null";
          o.str("name", n).raw("q", null ? shape_of("none") : shape_of(n)).b("null", null).str("out", outcome([&] { s.Setup(null ? nullptr : &qs.at(n).second); }));
        } else if (c == "solve") {
          const auto prm = read_params<IPP>(r);
          const bool needs = prm.initial_guess_method == InitialGuessMethod::USER_PROVIDED;
          const VectorXd v0 = before == "none" ? VectorXd() : VectorXd(s.variables());
          const bool positive = !needs || before == "none" || (s.s_block().array() > 0).all();
          const std::string out = outcome([&] { (void)s.Solve(prm); });
          bool same = true;
          if (before != "none" && before != "unknown" && out == "ok" && !needs) {   // the same as a solver that never saw anything else
            QPInteriorPointSolver t(&qs.at(before).second); (void)t.Solve(prm);
            const VectorXd a = s.variables(), b = t.variables(); same = a.size() == b.size() && (a.array() == b.array()).all();
          }
          const VectorXd v1 = before == "none" ? VectorXd() : VectorXd(s.variables());
          const bool kept = v0.size() == v1.size() && std::memcmp(v0.data(), v1.data(), sizeof(double) * v0.size()) == 0;
          o.raw("p", show(prm)).raw("q", shape_of(before)).b("positive", positive).b("user", needs).b("kept", kept).b("same", same).str("out", out);
        } else if (c == "vars") {   // offset from the right dimension, value
          const int off = r.i(); const double v = r.d();
          const int n = before == "none" || before == "unknown" ? off : static_cast<int>(s.variables().size()) + off;
          const VectorXd v0 = before == "none" ? VectorXd() : VectorXd(s.variables());
          const std::string out = outcome([&] { s.SetVariables(VectorXd::Constant(std::max(n, 0), v)); });
          const VectorXd v1 = before == "none" ? VectorXd() : VectorXd(s.variables());
          o.raw("q", shape_of(before)).i("n", std::max(n, 0)).b("kept", v0.size() == v1.size() && std::memcmp(v0.data(), v1.data(), sizeof(double) * v0.size()) == 0).str("out", out);
        } else { std::fprintf(stderr, "unknown call %s\n", c.c_str()); return 3; }
        emit_nf(o.str("after", held()));
      }
    } else if (kind == "ctor") {   // interior point solvers from a shape, and the null-space solver on it
      const Shape s = read_shape(r); const QP q = make(s);
      const std::string ip = outcome([&] { QPInteriorPointSolver t(&q); });
      VectorXd x; std::string ns;
      { QPNullSpaceSolver t; ns = outcome([&] { (void)t.Solve(q); }); }
      emit_nf(Obj{}.str("e", "ctor").str("scn", id).raw("q", show(s)).str("ip", ip).str("ns", ns));
    } else if (kind == "res") {   // type (-1: dynamic), how (0: vector/array, 1: initializer list), index list, parameters, operation, h rows cols, b rows
      const int type = r.i(), how = r.i(); const std::vector<int> idx = list(r); const int n = r.i(); const std::string op = r.tok(); const int hr = r.i(), hc = r.i(), br = r.i();
      std::unique_ptr<Residual> res;
      g_ev = Evals{};
      const auto fn1 = [idx](const Matrix<double, 1, 1>& x, Matrix<double, 2, 1>* J) { seen(x, idx); if (J) *J = Vector2d(1, 2); return Vector2d(x[0], 2 * x[0] - 1); };
      const auto fn2 = [idx](const Vector2d& x, Matrix2d* J) { seen(x, idx); if (J) *J = Matrix2d::Identity(); return Vector2d(x); };
      const std::string make_out = outcome([&] {
        const auto keep = [&](Residual&& q) { res = std::make_unique<Residual>(std::move(q)); };
        if (type == 1 && how == 1) { if (idx.size() == 0) keep(MakeResidual<2, 1>(std::initializer_list<int>{}, fn1)); else if (idx.size() == 1) keep(MakeResidual<2, 1>({idx[0]}, fn1)); else keep(MakeResidual<2, 1>({idx[0], idx[1]}, fn1)); }
        else if (type == 2 && how == 1) { if (idx.size() == 1) keep(MakeResidual<2, 2>({idx[0]}, fn2)); else if (idx.size() == 2) keep(MakeResidual<2, 2>({idx[0], idx[1]}, fn2)); else keep(MakeResidual<2, 2>({idx[0], idx[1], idx[2]}, fn2)); }
        else if (type == 1) keep(fixed<1>({idx[0]}));
        else if (type == 2) keep(fixed<2>({idx[0], idx[1]}));
        else keep(dyn(idx));
      });
      Obj o; o.str("e", "res").str("scn", id).raw("q", Obj{}.i("fixed", how == 1 ? type : -1).raw("idx", ints(idx)).i("n", n).str("op", op).raw("h", pair(hr, hc)).i("b", br).i("r", 2).done()).str("make", make_out);
      std::string out = "none";
      g_ev = Evals{}; g_ev.guess = VectorXd(n); for (int k = 0; k < n; ++k) g_ev.guess[k] = 1.5 + k; g_ev.compare = true;
      const VectorXd x = g_ev.guess;
      bool shape = true;
      if (res) {
        // the matrices are parts of bigger ones where the interface takes blocks
        MatrixXd H = MatrixXd::Zero(hr, hc); VectorXd b = VectorXd::Zero(br);
        MatrixXd big = MatrixXd::Zero(hr + 2, hc); VectorXd bigb = VectorXd::Zero(br + 2);
        if (op == "error") out = outcome([&] { res->ErrorVector(x, bigb.segment(1, br)); });
        else if (op == "quadratic") out = outcome([&] { res->QuadraticError(x); });
        else if (op == "hessian") out = outcome([&] { res->UpdateHessian(x, &H, &b); });
        else if (op == "hessian_null") { out = outcome([&] { res->UpdateHessian(x, nullptr, &b); }); if (out == "assert") out = outcome([&] { res->UpdateHessian(x, &H, nullptr); }); }
        else if (op == "jacobian") out = outcome([&] { res->UpdateJacobian(x, big.middleRows(1, hr), bigb.segment(1, br)); });
        else if (op == "moved") { Residual gone = std::move(*res); out = outcome([&] { res->QuadraticError(x); }); if (out == "assert") out = outcome([&] { (void)res->Dimension(); }); if (out == "assert") out = outcome([&] { res->UpdateHessian(x, &H, &b); }); if (out == "assert") out = outcome([&] { res->ErrorVector(x, bigb.segment(1, br)); }); if (out == "assert") out = outcome([&] { res->UpdateJacobian(x, big.middleRows(1, hr), bigb.segment(1, br)); }); }
        shape = (big.row(0).array() == 0).all() && (big.row(hr + 1).array() == 0).all() && bigb[0] == 0 && bigb[br + 1] == 0;
      }
      emit_nf(o.str("out", out).i("evals", g_ev.n).i("wrong", g_ev.wrong).b("inside", shape));
    } else if (kind == "bound") {   // a, b, x, variable, n
      const double a = r.d(), b = r.d(), x = r.d(); const int v = std::stoi(r.tok()), n = r.i();
      const LinearInequalityConstraint c(v, a, b);
      emit_nf(Obj{}.str("e", "bound").str("scn", id).n("a", a).raw("vars", ints({v})).i("n", n).str("clamp", outcome([&] { (void)c.ClampX(x); })).str("shift", outcome([&] { (void)c.ShiftTo(VectorXd::Constant(n, x)); })));
    } else { std::fprintf(stderr, "unknown kind %s\n", kind.c_str()); return 3; }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

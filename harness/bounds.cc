// Runs histories of bound constraint objects.
#include "common.hpp"
#include "mini_opt/qp.hpp"
using namespace mini_opt;
using namespace vh;

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok();
    LinearInequalityConstraint c(0, 0, 0);
    for (std::string op = r.tok(); op != "done"; op = r.tok()) {
      Obj o;
      if (op == "le" || op == "ge" || op == "con") {
        const int i = r.i();
        const double a = op == "con" ? r.d() : 0, p = r.d();
        if (op == "le") c = Var(i) <= p; else if (op == "ge") c = Var(i) >= p; else c = LinearInequalityConstraint(i, a, p);
        o.str("e", "new").str("op", op).i("i", i).n("a0", a).n("p", p);
      } else if (op == "feas") {
        const double x = r.d();
        o.str("e", "feas").n("x", x).b("ans", c.IsFeasible(x));
      } else if (op == "clamp") {
        const double x = r.d();
        double y = 0; std::string what = "none";
        try { y = c.ClampX(x); } catch (const assert::default_error&) { what = "assertion"; }
        o.str("e", "clamp").n("x", x).n("y", y).str("what", what);
      } else if (op == "shift") {
        const double p = r.d();
        c = c.ShiftTo(p);
        o.str("e", "shift").str("how", "scalar").n("p", p);
      } else {  // shiftv: the other entries of the vector must not matter
        const double p = r.d();
        Eigen::VectorXd x(c.variable + 3);
        for (int k = 0; k < x.size(); ++k) x[k] = 100 + k;
        x[c.variable] = p;
        c = c.ShiftTo(x);
        o.str("e", "shift").str("how", "vector").n("p", p);
      }
      o.str("scn", id).i("v", c.variable).n("a", c.a).n("b", c.b);
      emit_nf(o);
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

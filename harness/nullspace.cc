// Solves sequences of problems on one QPNullSpaceSolver.
#include "common.hpp"
#include "mini_opt/qp.hpp"
using namespace mini_opt;
using namespace vh;

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok();
    const int count = r.i();
    QPNullSpaceSolver solver;
    for (int k = 0; k < count; ++k) {
      QP qp;
      qp.G = r.mat(); qp.c = r.vec(); qp.A_eq = r.mat(); qp.b_eq = r.vec();
      Obj o;
      o.str("e", "solve").str("scn", id).i("n", qp.G.rows()).m("G", qp.G).v("c", qp.c).m("A", qp.A_eq).v("b", qp.b_eq);
      try {
        const QPNullSpaceTerminationState t = solver.Solve(qp);
        o.str("term", t == QPNullSpaceTerminationState::SUCCESS ? "SUCCESS" : t == QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE ? "NOT_POSITIVE_DEFINITE" : "?");
      } catch (const std::exception& ex) { o.str("term", std::string("exception ") + std::string(ex.what()).substr(0, 80)); }
      o.v("x", solver.variables());
      if (qp.G.rows() > 0 && qp.G.allFinite()) { const QPEigenvalues q = qp.ComputeEigenvalueStats(); o.raw("eig", "[\"" + num(q.min) + "\",\"" + num(q.max) + "\",\"" + num(q.abs_min) + "\"]"); }
      else o.raw("eig", "[]");
      emit(o);
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

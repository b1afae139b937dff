// Assembles residual blocks into linear systems and Jacobians, logging the memory after every operation.
#include "common.hpp"
#include "mini_opt/residual.hpp"
using namespace mini_opt;
using namespace vh;

struct Call { Eigen::VectorXd p; bool jac; long jr, jc; };
static std::vector<Call> calls;
struct Data { int rows; std::vector<int> idx; Eigen::VectorXd c; Eigen::MatrixXd A, Q; };

template <int R, int P> struct Fn {
  Data d;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) const {
    calls.push_back({p, J != nullptr, J ? static_cast<long>(J->rows()) : 0, J ? static_cast<long>(J->cols()) : 0});
    if (p.size() != static_cast<long>(d.idx.size())) return Eigen::Matrix<double, R, 1>::Zero();
    if (J) for (int i = 0; i < R && i < J->rows(); ++i) for (int j = 0; j < static_cast<int>(d.idx.size()) && j < J->cols(); ++j) (*J)(i, j) = d.A(i, j) + 2 * d.Q(i, j) * p[j];
    Eigen::Matrix<double, R, 1> e;
    for (int i = 0; i < R; ++i) { e[i] = d.c[i]; for (int j = 0; j < static_cast<int>(d.idx.size()); ++j) e[i] += d.A(i, j) * p[j] + d.Q(i, j) * p[j] * p[j]; }
    return e;
  }
};

template <int R, int P> static Residual make_init(const Data& d) {
  const std::vector<int>& i = d.idx;
  const Fn<R, P> f{d};
  switch (i.size()) {
    case 1: return MakeResidual<R, P>({i[0]}, f);
    case 2: return MakeResidual<R, P>({i[0], i[1]}, f);
    case 3: return MakeResidual<R, P>({i[0], i[1], i[2]}, f);
    case 4: return MakeResidual<R, P>({i[0], i[1], i[2], i[3]}, f);
    default: return MakeResidual<R, P>({i[0], i[1], i[2], i[3], i[4]}, f);
  }
}
template <int R, int P> static Residual make_p(const Data& d, const std::string& ctor) {
  if (ctor == "init" && d.idx.size() <= 5) return make_init<R, P>(d);
  typename mini_opt::internal::IndexType<P>::type index{};
  if constexpr (P == Eigen::Dynamic) index = d.idx; else std::copy(d.idx.begin(), d.idx.end(), index.begin());
  if (ctor == "move") return MakeResidual<R, P>(std::move(index), Fn<R, P>{d});
  const Fn<R, P> f{d};
  return MakeResidual<R, P>(index, f);
}
template <int R> static Residual make_r(const Data& d, bool dynamic, const std::string& ctor) {
  if (!dynamic) switch (d.idx.size()) {
    case 1: return make_p<R, 1>(d, ctor);
    case 2: return make_p<R, 2>(d, ctor);
    case 3: return make_p<R, 3>(d, ctor);
    case 4: return make_p<R, 4>(d, ctor);
    case 5: return make_p<R, 5>(d, ctor);
    default: break;
  }
  return make_p<R, Eigen::Dynamic>(d, ctor);
}
static Residual make(const Data& d, bool dynamic, const std::string& ctor) {
  switch (d.rows) { case 1: return make_r<1>(d, dynamic, ctor); case 2: return make_r<2>(d, dynamic, ctor); case 3: return make_r<3>(d, dynamic, ctor); default: return make_r<4>(d, dynamic, ctor); }
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok();
    const Eigen::VectorXd x = r.vec();
    Eigen::MatrixXd H = r.mat(); Eigen::VectorXd g = r.vec(); Eigen::MatrixXd J = r.mat(); Eigen::VectorXd e = r.vec();
    const int nr = r.i();
    std::vector<Residual> rs;
    std::vector<std::string> desc;
    for (int k = 0; k < nr; ++k) {
      Data d;
      const bool dynamic = r.i() != 0;
      const std::string ctor = r.tok();
      d.rows = r.i();
      const int np = r.i();
      std::string ix = "[";
      for (int q = 0; q < np; ++q) { d.idx.push_back(r.i()); ix += (q ? "," : "") + std::to_string(d.idx.back() + 1); }
      d.c = r.vec(); d.A = r.mat(); d.Q = r.mat();
      desc.push_back(Obj{}.i("rows", d.rows).raw("idx", ix + "]").v("c", d.c).m("A", d.A).m("Q", d.Q).b("dynamic", dynamic).done());
      rs.push_back(make(d, dynamic, ctor));
    }
    Obj st;
    std::string dims = "[";
    for (std::size_t k = 0; k < rs.size(); ++k) dims += (k ? "," : "") + std::to_string(rs[k].Dimension());
    st.str("e", "start").str("scn", id).v("x", x).m("H", H).v("g", g).m("J", J).v("er", e).raw("rs", Obj::join(desc)).raw("dims", dims + "]");
    emit_nf(st);
    const int nops = r.i();
    for (int k = 0; k < nops; ++k) {
      const std::string kind = r.tok();
      const int which = r.i(), off = r.i();
      const Residual& res = rs[which];
      calls.clear();
      double ret = 0;
      std::string what = "none";
      try {
        if (kind == "hessian") ret = res.UpdateHessian(x, &H, &g);
        else if (kind == "jacobian") res.UpdateJacobian(x, J.block(off, 0, res.Dimension(), x.size()), e.segment(off, res.Dimension()));
        else if (kind == "error") res.ErrorVector(x, e.segment(off, res.Dimension()));
        else ret = res.QuadraticError(x);
      } catch (const std::exception& ex) { what = std::string("exception ") + ex.what(); }
      std::string cs;
      for (const Call& c : calls) cs += (cs.empty() ? "" : ",") + Obj{}.v("p", c.p).b("jac", c.jac).i("jr", c.jr).i("jc", c.jc).done();
      emit_nf(Obj{}.str("e", "op").str("scn", id).str("kind", kind).i("res", which + 1).i("off", off).n("ret", ret).str("what", what.substr(0, 60))
                  .m("H", H).v("g", g).m("J", J).v("er", e).raw("calls", "[" + cs + "]"));
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

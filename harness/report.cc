// Builds solver outputs, and reads their statistics, text reports and JSON form.
#include "common.hpp"
#include "mini_opt/structs.hpp"
#include "mini_opt/serialization.hpp"
#include <nlohmann/json.hpp>
#include <fmt/format.h>
using namespace mini_opt;
using namespace vh;
using json = nlohmann::json;

static const std::vector<std::pair<std::string, OptimizerState>> kModes{{"NOMINAL", OptimizerState::NOMINAL}, {"ATTEMPTING_RESTORE_LM", OptimizerState::ATTEMPTING_RESTORE_LM}};
static const std::vector<std::pair<std::string, StepSizeSelectionResult>> kRes{
    {"SUCCESS", StepSizeSelectionResult::SUCCESS}, {"MAX_ITERATIONS", StepSizeSelectionResult::MAX_ITERATIONS}, {"FIRST_ORDER_SATISFIED", StepSizeSelectionResult::FIRST_ORDER_SATISFIED},
    {"POSITIVE_DERIVATIVE", StepSizeSelectionResult::POSITIVE_DERIVATIVE}, {"FAILURE_NON_FINITE_COST", StepSizeSelectionResult::FAILURE_NON_FINITE_COST}, {"FAILURE_INVALID_ALPHA", StepSizeSelectionResult::FAILURE_INVALID_ALPHA}};
static const std::vector<std::pair<std::string, NLSTerminationState>> kTerm{
    {"MAX_ITERATIONS", NLSTerminationState::MAX_ITERATIONS}, {"SATISFIED_ABSOLUTE_TOL", NLSTerminationState::SATISFIED_ABSOLUTE_TOL}, {"SATISFIED_RELATIVE_TOL", NLSTerminationState::SATISFIED_RELATIVE_TOL},
    {"SATISFIED_FIRST_ORDER_TOL", NLSTerminationState::SATISFIED_FIRST_ORDER_TOL}, {"MAX_LAMBDA", NLSTerminationState::MAX_LAMBDA}, {"QP_INDEFINITE", NLSTerminationState::QP_INDEFINITE}, {"USER_CALLBACK", NLSTerminationState::USER_CALLBACK}};
static const std::vector<std::pair<std::string, QPInteriorPointTerminationState>> kIp{{"SATISFIED_KKT_TOL", QPInteriorPointTerminationState::SATISFIED_KKT_TOL}, {"MAX_ITERATIONS", QPInteriorPointTerminationState::MAX_ITERATIONS}};
static const std::vector<std::pair<std::string, QPNullSpaceTerminationState>> kNs{{"SUCCESS", QPNullSpaceTerminationState::SUCCESS}, {"NOT_POSITIVE_DEFINITE", QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE}};
static const std::vector<std::pair<std::string, InitialGuessMethod>> kGuess{{"NAIVE", InitialGuessMethod::NAIVE}, {"SOLVE_EQUALITY_CONSTRAINED", InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED}, {"USER_PROVIDED", InitialGuessMethod::USER_PROVIDED}};
static const std::vector<std::pair<std::string, LineSearchStrategy>> kLs{{"ARMIJO_BACKTRACK", LineSearchStrategy::ARMIJO_BACKTRACK}, {"POLYNOMIAL_APPROXIMATION", LineSearchStrategy::POLYNOMIAL_APPROXIMATION}};
template <class E> E value(const std::vector<std::pair<std::string, E>>& t, const std::string& n) { for (const auto& [k, e] : t) if (k == n) return e; std::fprintf(stderr, "no enumerator %s\n", n.c_str()); std::exit(3); }
template <class E> std::string name(const std::vector<std::pair<std::string, E>>& t, E v) { for (const auto& [k, e] : t) if (e == v) return k; return "?"; }

static std::string (*show)(double) = num;
static std::string bits(double v) { if (std::isnan(v)) return "nan"; if (std::isinf(v)) return v > 0 ? "inf" : "-inf"; char b[40]; std::snprintf(b, sizeof b, "%a", v); return b; }
static std::string q(double v) { return "\"" + show(v) + "\""; }
static std::string list(std::initializer_list<double> v) { std::string r{"["}; for (double x : v) { if (r.size() > 1) r += ','; r += q(x); } return r + "]"; }

static std::string as_json(const NLSSolverOutputs& o) {
  std::vector<std::string> its;
  for (const auto& it : o.iterations) {
    Obj j;
    j.i("i", it.iteration).str("mode", name(kModes, it.optimizer_state)).raw("lam", q(it.lambda)).raw("f", q(it.errors_initial.f)).raw("c", q(it.errors_initial.equality));
    if (const auto* ns = std::get_if<QPNullSpaceTerminationState>(&it.qp_outputs)) j.raw("qp", Obj{}.str("kind", "ns").str("term", name(kNs, *ns)).raw("its", "[]").raw("lag", "[]").done());
    else {
      const auto& ip = std::get<QPInteriorPointSolverOutputs>(it.qp_outputs);
      std::vector<std::string> in;
      for (const auto& t : ip.iterations)
        in.push_back(Obj{}.raw("k0", list({t.kkt_initial.r_dual, t.kkt_initial.r_comp, t.kkt_initial.r_primal_eq, t.kkt_initial.r_primal_ineq}))
                         .raw("k1", list({t.kkt_final.r_dual, t.kkt_final.r_comp, t.kkt_final.r_primal_eq, t.kkt_final.r_primal_ineq}))
                         .raw("out", list({t.ip_outputs.mu, t.ip_outputs.alpha.primal, t.ip_outputs.alpha.dual, t.ip_outputs.alpha_probe.primal, t.ip_outputs.alpha_probe.dual, t.ip_outputs.mu_affine})).done());
      j.raw("qp", Obj{}.str("kind", "ip").str("term", name(kIp, ip.termination_state)).raw("its", Obj::join(in))
                      .raw("lag", ip.lagrange_multipliers ? list({ip.lagrange_multipliers->min, ip.lagrange_multipliers->l_infinity}) : "[]").done());
    }
    j.raw("eig", it.qp_eigenvalues ? list({it.qp_eigenvalues->min, it.qp_eigenvalues->max, it.qp_eigenvalues->abs_min}) : "[]")
        .raw("dd", list({it.directional_derivatives.d_f, it.directional_derivatives.d_equality})).raw("pen", q(it.penalty)).str("res", name(kRes, it.step_result));
    std::vector<std::string> st;
    for (const auto& s : it.line_search_steps) st.push_back(list({s.alpha, s.errors.f, s.errors.equality}));
    j.raw("steps", Obj::join(st));
    its.push_back(j.done());
  }
  return Obj{}.str("term", name(kTerm, o.termination_state)).raw("its", Obj::join(its)).done();
}

static NLSSolverOutputs build(Reader& r) {
  const auto term = value(kTerm, r.tok());
  std::vector<NLSIteration> its;
  for (int n = r.i(); n > 0; --n) {
    const int i = r.i(); const auto mode = value(kModes, r.tok()); const double lam = r.d(); Errors e{}; e.f = r.d(); e.equality = r.d();
    std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> qp;
    if (r.tok() == "ns") qp = value(kNs, r.tok());
    else {
      QPInteriorPointSolverOutputs ip{};
      ip.termination_state = value(kIp, r.tok());
      for (int m = r.i(); m > 0; --m) {
        QPInteriorPointIteration t{};
        for (KKTError* k : {&t.kkt_initial, &t.kkt_final}) { k->r_dual = r.d(); k->r_comp = r.d(); k->r_primal_eq = r.d(); k->r_primal_ineq = r.d(); }
        auto& p = t.ip_outputs; p.mu = r.d(); p.alpha.primal = r.d(); p.alpha.dual = r.d(); p.alpha_probe.primal = r.d(); p.alpha_probe.dual = r.d(); p.mu_affine = r.d();
        ip.iterations.push_back(t);
      }
      if (r.i()) { QPLagrangeMultipliers l{}; l.min = r.d(); l.l_infinity = r.d(); ip.lagrange_multipliers = l; }
      qp = ip;
    }
    std::optional<QPEigenvalues> eig;
    if (r.i()) { QPEigenvalues v{}; v.min = r.d(); v.max = r.d(); v.abs_min = r.d(); eig = v; }
    DirectionalDerivatives dd{}; dd.d_f = r.d(); dd.d_equality = r.d();
    const double pen = r.d(); const auto res = value(kRes, r.tok());
    std::vector<LineSearchStep> st;
    for (int m = r.i(); m > 0; --m) { LineSearchStep s{}; s.alpha = r.d(); s.errors.f = r.d(); s.errors.equality = r.d(); st.push_back(s); }
    its.emplace_back(i, mode, lam, e, qp, eig, dd, pen, res, st);
  }
  return NLSSolverOutputs(term, its);
}

// Splits a report into lines of tokens; terminal codes are collected separately.
static std::string numeric(const std::string& t) {   // empty if the token is not a number
  std::string u = t;
  if (u == "nan" || u == "-nan") return "nan";
  if (u == "inf" || u == "-inf") return u;
  char* end = nullptr;
  std::strtod(u.c_str(), &end);
  return !u.empty() && *end == 0 && (std::isdigit(u[0]) || u[0] == '-' || u[0] == '.') ? u : "";
}
static std::string text_json(const std::string& text, std::string* codes) {
  std::vector<std::string> lines, cs; std::string plain;
  for (std::size_t k = 0; k < text.size(); ++k) {
    if (text[k] == 27) { std::size_t e = text.find('m', k); if (e == std::string::npos) e = text.size() - 1; cs.push_back(Obj::quote(text.substr(k + 1, e - k - 1))); k = e; }
    else plain += text[k];
  }
  std::istringstream in(plain);
  for (std::string line; std::getline(in, line);) {
    for (char& c : line) if (std::strchr(",:()=|#", c)) c = ' ';
    std::istringstream ls(line); std::vector<std::string> toks;
    for (std::string t; ls >> t;) { const std::string n = numeric(t); toks.push_back(n.empty() ? Obj{}.str("w", t).done() : Obj{}.str("n", n).done()); }
    if (!toks.empty()) lines.push_back(Obj::join(toks));
  }
  *codes = Obj::join(cs);
  return Obj::join(lines);
}

// All strings of a document, in sorted order.
static void strings(const json& j, std::vector<std::string>& out) {
  if (j.is_string()) out.push_back(j.get<std::string>());
  else if (j.is_structured()) for (const auto& c : j) strings(c, out);
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok();
    {
      std::vector<std::string> ns;
      const auto put = [&](const auto& t) { for (const auto& [k, e] : t) ns.push_back("[" + Obj::quote(k) + "," + Obj::quote(name_of(e)) + "," + Obj::quote(fmt::format("{}", e)) + "]"); };
      put(kModes); put(kRes); put(kTerm); put(kIp); put(kNs); put(kGuess); put(kLs);
      emit_nf(Obj{}.str("e", "names").str("scn", id).raw("names", Obj::join(ns)));
    }
    for (int k = r.i(); k > 0; --k) {
      const NLSSolverOutputs o = build(r);
      show = num;
      Obj j; j.str("e", "report").str("scn", id).raw("log", as_json(o)).i("nqp", o.NumQPIterations()).i("ntry", o.NumLineSearchSteps()).i("nfail", o.NumFailedLineSearches());
      std::vector<std::string> texts;
      for (const bool qp : {false, true}) for (const bool color : {false, true}) { std::string codes; const std::string l = text_json(o.ToString(color, qp), &codes); texts.push_back(Obj{}.b("qp", qp).b("color", color).raw("lines", l).raw("codes", codes).done()); }
      j.raw("texts", Obj::join(texts));
      // single iterations on their own
      std::vector<std::string> parts;
      for (const auto& it : o.iterations) { std::string c; parts.push_back(text_json(it.ToString(false, true), &c)); }
      emit_nf(j.raw("parts", Obj::join(parts)));
      show = bits;
      for (const int indent : {-1, 2}) {
        Obj g; g.str("e", "json").str("scn", id).raw("log", as_json(o));
        std::string stage = "write";
        try {
          const json doc = o;
          const std::string text = doc.dump(indent);
          stage = "parse"; const json back = json::parse(text);
          stage = "read"; const NLSSolverOutputs o2 = back.get<NLSSolverOutputs>();
          stage = "none";
          std::vector<std::string> ss; strings(back, ss); std::sort(ss.begin(), ss.end());
          std::vector<std::string> sq; for (const auto& s : ss) sq.push_back(Obj::quote(s));
          const NLSSolverOutputs o3 = doc.get<NLSSolverOutputs>();   // without the text
          g.raw("back", "[" + as_json(o2) + "]").raw("direct", "[" + as_json(o3) + "]").raw("strings", Obj::join(sq));
        } catch (const std::exception& ex) { g.raw("back", "[]").raw("direct", "[]").raw("strings", "[]"); stage += std::string(": ") + std::string(ex.what()).substr(0, 100); }
        emit_nf(g.str("failed", stage));
      }
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

// Every user function of a solve fails, one call at a time: what reaches the caller, and what the solver then holds.
#include "digest.hpp"
#include <any>
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <variant>
using namespace vh;

struct Plain { int token; };
struct Boom : std::runtime_error { int token; explicit Boom(int t) : std::runtime_error("boom"), token(t) {} };
struct BoomBoom : Boom { int more; explicit BoomBoom(int t) : Boom(t), more(t * 7) {} };
// Standard exceptions: with a message, and without.
#define WITH_TEXT(X) X(std::logic_error) X(std::domain_error) X(std::invalid_argument) X(std::length_error) X(std::out_of_range) X(std::runtime_error) X(std::range_error) X(std::overflow_error) X(std::underflow_error)
#define WITHOUT_TEXT(X) X(std::exception) X(std::bad_cast) X(std::bad_typeid) X(std::bad_function_call) X(std::bad_optional_access) X(std::bad_variant_access) X(std::bad_weak_ptr) X(std::bad_exception) X(std::bad_array_new_length)
static const std::vector<std::string> kinds = {"plain", "derived", "int", "assertion", "factorisation", "alloc", "text", "double", "string", "system",
#define X(T) #T,
  WITH_TEXT(X) WITHOUT_TEXT(X)
#undef X
};
static const int NK = static_cast<int>(kinds.size());

[[noreturn]] static void throw_kind(int k, int token) {
  switch (k) {
    case 0: throw Plain{token};
    case 1: throw BoomBoom(token);
    case 2: throw token;
    case 3: throw assert::default_error("user " + std::to_string(token));
    case 4: throw FailedFactorization("user " + std::to_string(token));
    case 5: throw std::bad_alloc();
    case 6: throw "a user function failed";
    case 7: throw static_cast<double>(token);
    case 8: throw std::to_string(token);
    case 9: throw std::system_error(token, std::generic_category());
    default: break;
  }
  int c = 10;
#define X(T) if (k == c++) throw T("user " + std::to_string(token));
  WITH_TEXT(X)
#undef X
#define X(T) if (k == c++) throw T();
  WITHOUT_TEXT(X)
#undef X
  throw std::runtime_error("no such kind");
}
static bool has_token(int k) { return k != 5 && k != 6 && k < 10 + 9; }
// What was caught: its exact type and its contents.
static std::string known(const std::exception& e) {
  const std::string w = e.what();
  if (typeid(e) == typeid(std::bad_alloc)) return "alloc:";
#define X(T) if (typeid(e) == typeid(T)) return std::string(#T) + ":" + (w.rfind("user ", 0) == 0 ? w.substr(5) : w.substr(0, 40));
  WITH_TEXT(X)
#undef X
#define X(T) if (typeid(e) == typeid(T)) return std::string(#T) + ":";
  WITHOUT_TEXT(X)
#undef X
  return "std:" + w.substr(0, 40);
}
template <class F> static std::string caught(F&& f) {
  try { f(); return "none"; }
  catch (const Plain& e) { return "plain:" + std::to_string(e.token); }
  catch (const Boom& e) { const auto* b = dynamic_cast<const BoomBoom*>(&e); return b && b->more == 7 * e.token ? "derived:" + std::to_string(e.token) : "sliced:" + std::to_string(e.token); }
  catch (int t) { return "int:" + std::to_string(t); }
  catch (double t) { return "double:" + std::to_string(static_cast<int>(t)); }
  catch (const char* t) { return std::string(t) == "a user function failed" ? "text:" : "text?"; }
  catch (const std::string& t) { return "string:" + t; }
  catch (const assert::default_error& e) { const std::string w = e.what(); return "assertion:" + (w.rfind("user ", 0) == 0 ? w.substr(5) : "library"); }
  catch (const FailedFactorization& e) { const std::string w = e.what(); return "factorisation:" + (w.rfind("user ", 0) == 0 ? w.substr(5) : "library"); }
  catch (const std::system_error& e) { return typeid(e) == typeid(std::system_error) ? "system:" + std::to_string(e.code().value()) : "sliced"; }
  catch (const std::exception& e) { return known(e); }
  catch (...) { return "unknown"; }
}

struct Step { std::string kind, held, seen; };

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    NlsProblem P; P.read(r);
    P.rec.on = false;
    const std::string id = P.id;
    int salt = 0; for (const char c : id) salt = salt * 31 + c;
    salt = (salt % 1000 + 1000) % 1000;
    const bool with_cb = P.cbmode != 0;
    std::vector<Step> steps;
    int fail_at = -1, kind = 0; NLS* cur = nullptr;
    const auto held = [&] { Digest d; d.m(cur->variables()); return fnv(d.t); };
    P.rec.hook = [&](const char* k) {
      steps.push_back(Step{k, held(), ""});
      if (static_cast<int>(steps.size()) == fail_at) throw_kind(kind, 1000 + fail_at);
    };
    struct Run { std::string caught, outcome, held; std::vector<Step> steps; };
    std::string cls;
    const auto solve = [&](NLS& n, bool eval) {
      Run out; cur = &n; steps.clear(); cls.clear();
      P.rec.calls = 0;
      int ncb = 0; std::string seen;
      if (with_cb) n.SetUserExitCallback([&](const NLSIteration& it) {
        steps.push_back(Step{"tell", held(), ""});
        Digest d; dig(d, it); seen += d.t;
        if (static_cast<int>(steps.size()) == fail_at) throw_kind(kind, 1000 + fail_at);
        return !(P.cbstop >= 0 && ncb++ >= P.cbstop);
      });
      Digest g;
      out.caught = caught([&] {
        if (eval) { const Errors e = n.EvaluateNonlinearErrors(P.x0); g.d(e.f).d(e.equality); cls = "value"; }
        else { const NLSSolverOutputs o = n.Solve(P.par, P.x0); dig(g, o); g.m(n.variables()); cls = nls_term(o.termination_state); }
      });
      out.outcome = fnv(g.t + seen); out.held = held(); out.steps = steps;
      return out;
    };
    for (const bool eval : {false, true}) {
      NLS ref(&P.problem, P.retraction());
      fail_at = -1;
      const Eigen::VectorXd none = ref.variables();
      const Run a = solve(ref, eval);
      const std::string refcls = cls;
      std::vector<std::string> ks, hs;
      for (const Step& s : a.steps) { ks.push_back(Obj::quote(s.kind)); hs.push_back(Obj::quote(s.held)); }
      // The errors where the solve starts (0 finite, 1 not).
      bool finite = true;
      { const auto hook = P.rec.hook; P.rec.hook = nullptr; for (const auto& s : P.specs) { Eigen::VectorXd p(s->P), e; Eigen::MatrixXd J; for (int k = 0; k < s->P; ++k) p[k] = P.x0[s->idx[k]]; Recorder q = P.rec; evaluate(*s, q, p, e, J, true); if (!e.allFinite()) finite = false; } P.rec.hook = hook; }
      Digest x0; x0.m(P.x0);
      emit_nf(Obj{}.str("e", "ref").str("scn", id).b("eval", eval).raw("kinds", Obj::join(ks)).raw("held", Obj::join(hs)).str("caught", a.caught).str("term", refcls).str("out", a.outcome)
               .str("final", a.held).b("finite", finite).str("x0", fnv(x0.t)).i("costs", P.problem.costs.size()).i("eqs", P.problem.equality_constraints.size()).b("retr", P.retr != "none").b("cb", with_cb));
      if (a.caught != "none") continue;
      NLS shared(&P.problem, P.retraction());
      for (int k = 1; k <= static_cast<int>(a.steps.size()); ++k) {
        fail_at = k; kind = (k + salt) % NK;
        NLS fresh(&P.problem, P.retraction());
        const bool use_fresh = (k + salt) % 2 == 0;
        NLS& n = use_fresh ? fresh : shared;
        const Run b = solve(n, eval);
        bool prefix = b.steps.size() <= a.steps.size();
        for (std::size_t q = 0; prefix && q < b.steps.size(); ++q) prefix = b.steps[q].kind == a.steps[q].kind && (eval || b.steps[q].held == a.steps[q].held);
        const std::string want = std::string(kinds[kind]) + ":" + (has_token(kind) ? std::to_string(1000 + k) : "");
        const std::string at = b.steps.empty() ? "none" : b.steps.back().held;
        // The object is usable afterwards.
        fail_at = -1;
        const Run c = solve(n, eval);
        emit_nf(Obj{}.str("e", "fault").str("scn", id).b("eval", eval).i("k", k).str("kind", kinds[kind].rfind("std::", 0) == 0 ? kinds[kind].substr(5) : kinds[kind]).str("want", want).str("caught", b.caught).i("calls", b.steps.size()).b("prefix", prefix)
                 .str("at", at).str("final", b.held).str("again", c.outcome).str("again_held", c.held).b("reused", !use_fresh));
      }
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

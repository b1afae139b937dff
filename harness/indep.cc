// Several solver objects at the same time: in threads that take turns at calls to user functions, in threads that run freely, and inside
// user functions of each other.  Every job also runs alone.
#include <condition_variable>
#include <mutex>
#include <thread>
#include "digest.hpp"
using namespace vh;

struct Nest { int parent; std::string kind; int pick, child; };
struct Job { std::string kind; int pi; Eigen::VectorXd x0; int variant; };   // solve, eval, self (on the solver that runs), ip, ns
struct Step { int job; std::string what; };
struct Result { std::string cls, digest; std::vector<std::string> steps; };

static std::vector<std::unique_ptr<NlsProblem>> probs;
static std::vector<std::unique_ptr<QP>> qps;
static std::vector<Job> jobs;
static std::vector<Nest> nests;
static std::vector<Result> alone, mixed;
static std::vector<std::vector<std::string>> alone_kinds;   // of the calls of a job running alone
static std::vector<Step> order;
static bool recording = false, mixing = false, nested_mode = false;

// Turns.
static std::mutex mu; static std::condition_variable cv;
static std::vector<int> word; static std::size_t at = 0; static std::vector<bool> alive; static int turn = -1; static bool turns = false;
static void pass_on() {   // with mu held
  turn = -1;
  bool any = false; for (const bool a : alive) any = any || a;
  if (!any) return;
  while (true) { const int j = word[at++ % word.size()]; if (j < static_cast<int>(alive.size()) && alive[j]) { turn = j; break; }
    if (at > 1000000) { for (std::size_t q = 0; q < alive.size(); ++q) if (alive[q]) { turn = static_cast<int>(q); break; } break; } }
  cv.notify_all();
}
static void wait_turn(int j) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return turn == j; }); }
static void yield_turn(int j) { std::unique_lock<std::mutex> l(mu); pass_on(); cv.wait(l, [&] { return turn == j; }); }

struct Frame { int job; int thread; NLS* solver; std::vector<std::string> steps, kinds; Frame* below; };
static thread_local Frame* top = nullptr;
static Result run(int j, int thread, NLS* self);

static void call(const char* kind) {
  Frame* f = top;
  if (f == nullptr) return;
  Digest d; d.s(kind); if (f->solver) d.m(static_cast<const NLS&>(*f->solver).variables());
  f->steps.push_back(fnv(d.t)); f->kinds.push_back(kind);
  if (mixing && recording) order.push_back(Step{f->job, f->steps.back()});
  if (mixing && nested_mode) {
    for (const Nest& n : nests) {
      if (n.parent != f->job || n.kind != kind) continue;
      const auto& ks = alone_kinds[f->job];
      int total = 0, seen = 0;
      for (const auto& k : ks) total += k == n.kind;
      for (const auto& k : f->kinds) seen += k == n.kind;
      if (total == 0 || seen - 1 != n.pick % total) continue;
      mixed[n.child] = run(n.child, f->thread, f->solver);
    }
  }
  if (mixing && turns && f->below == nullptr) yield_turn(f->thread);
}

static Result run(int j, int thread, NLS* self) {
  const Job& b = jobs[j];
  Frame f{j, thread, nullptr, {}, {}, top}; top = &f;
  Result out; Digest g;
  try {
    if (b.kind == "solve" || b.kind == "eval" || b.kind == "self") {
      NlsProblem& P = *probs[b.pi];
      std::unique_ptr<NLS> own;
      if (b.kind != "self" || self == nullptr) { own = std::make_unique<NLS>(&P.problem, P.retraction()); self = own.get(); }
      if (b.kind == "solve") {
        f.solver = self;
        int ncb = 0; std::string seen;
        self->SetUserExitCallback([&](const NLSIteration& it) { Digest d; dig(d, it); seen += d.t; call("tell"); return !(P.cbstop >= 0 && ncb++ >= P.cbstop); });
        const NLSSolverOutputs o = self->Solve(P.par, b.x0);
        dig(g, o); g.m(static_cast<const NLS&>(*self).variables()).s(seen); out.cls = nls_term(o.termination_state);
      } else { const Errors e = self->EvaluateNonlinearErrors(b.x0); g.d(e.f).d(e.equality); out.cls = "value"; }
    } else if (b.kind == "ip") {
      const QP& q = *qps[b.pi];
      QPInteriorPointSolver s; s.Setup(&q);
      QPInteriorPointSolver::Params p{};
      p.initial_mu = 1.0; p.sigma = b.variant % 2 ? 0.1 : 0.5; p.max_iterations = 1 + b.variant % 13;
      p.barrier_strategy = static_cast<BarrierStrategy>(b.variant % 3);
      p.initial_guess_method = b.variant % 5 < 3 ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
      p.initialize_mu_with_complementarity = b.variant % 7 == 0;
      const auto o = s.Solve(p); dig(g, o); g.m(s.variables()); out.cls = "ip";
    } else {
      QPNullSpaceSolver s; const auto t = s.Solve(*qps[b.pi]);
      g.i(static_cast<int>(t)); if (t == QPNullSpaceTerminationState::SUCCESS) g.m(s.variables()); out.cls = "ns";
    }
  } catch (const assert::default_error&) { out.cls = "assertion"; }
  catch (const std::exception&) { out.cls = "exception"; }
  top = f.below;
  out.digest = fnv(g.t + out.cls); out.steps = f.steps;
  if (!mixing) alone_kinds[j] = f.kinds;
  return out;
}

int main(int, char** argv) {
  std::ifstream fs(argv[1]);
  Reader r(fs);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok(), mode = r.tok();
    probs.clear(); qps.clear(); jobs.clear(); nests.clear(); order.clear(); word.clear();
    for (int k = r.i(); k > 0; --k) { r.expect("NLS"); probs.push_back(std::make_unique<NlsProblem>()); probs.back()->read(r); auto& rec = probs.back()->rec; rec.on = false; rec.quiet = true; rec.hook = call; }
    for (int k = r.i(); k > 0; --k) qps.push_back(std::make_unique<QP>(read_qp(r)));
    for (int k = r.i(); k > 0; --k) { Job b; b.kind = r.tok(); b.pi = r.i(); b.variant = r.i(); b.x0 = r.vec(); jobs.push_back(b); }
    for (int k = r.i(); k > 0; --k) { Nest n; n.parent = r.i(); n.kind = r.tok(); n.pick = r.i(); n.child = r.i(); nests.push_back(n); }
    for (int k = r.i(); k > 0; --k) word.push_back(r.i());
    const int repeats = r.i();
    const int nj = static_cast<int>(jobs.size());
    alone.assign(nj, {}); alone_kinds.assign(nj, {});
    mixing = false; turns = false; nested_mode = false;
    std::string before; for (auto& p : probs) before += prob_digest(p->problem); for (auto& q : qps) before += prob_digest(*q);
    for (int j = 0; j < nj; ++j) alone[j] = run(j, 0, nullptr);
    mixing = true; recording = mode != "free"; nested_mode = mode == "nest"; turns = mode == "turns";
    std::vector<bool> child(nj, false); for (const Nest& n : nests) child[n.child] = true;
    for (int rep = 0; rep < repeats; ++rep) {
      mixed.assign(nj, Result{"none", "none", {}}); order.clear();
      if (mode == "nest") { for (int j = 0; j < nj; ++j) if (!child[j]) mixed[j] = run(j, 0, nullptr); }
      else {
        std::vector<std::thread> ts;
        alive.assign(nj, true); at = 0; turn = -1;
        for (int j = 0; j < nj; ++j) ts.emplace_back([j] {
          if (turns) wait_turn(j);
          mixed[j] = run(j, j, nullptr);
          if (turns) { std::unique_lock<std::mutex> l(mu); alive[j] = false; pass_on(); }
        });
        if (turns) { std::unique_lock<std::mutex> l(mu); pass_on(); }
        for (auto& t : ts) t.join();
        if (!recording) for (int j = 0; j < nj; ++j) for (const auto& s : mixed[j].steps) order.push_back(Step{j, s});
      }
      std::string after; for (auto& p : probs) after += prob_digest(p->problem); for (auto& q : qps) after += prob_digest(*q);
      std::vector<std::string> js, os, ns;
      for (int j = 0; j < nj; ++j) {
        std::vector<std::string> st; for (const auto& s : alone[j].steps) st.push_back(Obj::quote(s));
        js.push_back(Obj{}.str("kind", jobs[j].kind).str("cls", alone[j].cls).str("alone", alone[j].digest).str("mixed", mixed[j].digest).b("ran", mixed[j].cls != "none").raw("steps", Obj::join(st)).done());
      }
      for (const Step& s : order) os.push_back(Obj{}.i("j", s.job + 1).str("s", s.what).done());
      for (const Nest& n : nests) ns.push_back(Obj{}.i("parent", n.parent + 1).str("at", n.kind).i("child", n.child + 1).done());
      emit(Obj{}.str("e", "mix").str("scn", id).str("mode", mode).raw("jobs", Obj::join(js)).raw("order", Obj::join(os)).raw("nests", Obj::join(ns)).b("untouched", before == after));
    }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  return 0;
}

// Drives the trace collector: schedules of the specification, bulk histories, single fields, scopes and exceptions.
#include <atomic>
#include <chrono>
#include <deque>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include "common.hpp"
#include "mini_opt/tracing.hpp"

using namespace vh;
using namespace mini_opt;
using json = nlohmann::json;

// ---- data races (ThreadSanitizer builds) -----------------------------------------------------------------------
static std::atomic<int> g_races{0};
extern "C" void __tsan_on_report(void*) { g_races.fetch_add(1, std::memory_order_relaxed); }

// ---- schedules -------------------------------------------------------------------------------------------------
// Only relaxed atomics: the controller must not order the threads for the race detector.
constexpr auto RX = std::memory_order_relaxed;
constexpr int kMax = 16;
struct Ctl {
  std::atomic<bool> on{false}, free_run{false};
  std::atomic<int> turn{-1}, pos{0}, alive{0};
  std::atomic<bool> done[kMax], blocked[kMax];
  std::atomic<int> sched[4096];
  std::atomic<int> nsched{0}, nthreads{0};
  struct Lock { std::atomic<void*> addr{nullptr}; std::atomic<int> owner{-1}; } locks[8];
  std::atomic<long> clock{1};
} g_ctl;
static thread_local int g_me = -1;

static Ctl::Lock* lock_of(void* m) {
  for (auto& k : g_ctl.locks) {
    void* a = k.addr.load(RX);
    if (a == m) return &k;
    if (a == nullptr) { k.addr.store(m, RX); return &k; }
  }
  return nullptr;
}
// Chooses the next thread: the schedule first, then round robin; blocked threads only when nothing else can run.
static void choose(const int me) {
  const int n = g_ctl.nthreads.load(RX);
  int next = -1;
  while (g_ctl.pos.load(RX) < g_ctl.nsched.load(RX)) {
    const int t = g_ctl.sched[g_ctl.pos.load(RX)].load(RX);
    g_ctl.pos.store(g_ctl.pos.load(RX) + 1, RX);
    if (t >= 0 && t < n && !g_ctl.done[t].load(RX)) { next = t; break; }
  }
  for (int pass = 0; next < 0 && pass < 2; ++pass)
    for (int k = 1; next < 0 && k <= n; ++k) { const int t = (me + k) % n; if (!g_ctl.done[t].load(RX) && (pass == 1 || !g_ctl.blocked[t].load(RX))) next = t; }
  g_ctl.turn.store(next, RX);
}
static void wait_turn() {
  const auto t0 = std::chrono::steady_clock::now();
  for (long k = 0; g_ctl.turn.load(RX) != g_me && !g_ctl.free_run.load(RX); ++k) {
    sched_yield();
    if ((k & 1023) == 1023 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(5)) g_ctl.free_run.store(true, RX);  // a lock of another kind is in the way
  }
}
static void point() {
  if (g_me < 0 || !g_ctl.on.load(RX) || g_ctl.free_run.load(RX)) return;
  choose(g_me);
  wait_turn();
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (g_me < 0 || !g_ctl.on.load(RX) || g_ctl.free_run.load(RX)) return __real_pthread_mutex_lock(m);
  Ctl::Lock* const k = lock_of(m);
  point();
  while (k && k->owner.load(RX) >= 0 && k->owner.load(RX) != g_me && !g_ctl.free_run.load(RX)) { g_ctl.blocked[g_me].store(true, RX); point(); }
  g_ctl.blocked[g_me].store(false, RX);
  const int rc = __real_pthread_mutex_lock(m);
  if (k) k->owner.store(g_me, RX);
  point();
  return rc;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  const int rc = __real_pthread_mutex_unlock(m);
  if (g_me < 0 || !g_ctl.on.load(RX) || g_ctl.free_run.load(RX)) return rc;
  if (Ctl::Lock* const k = lock_of(m)) k->owner.store(-1, RX);
  point();
  return rc;
}
}

// ---- exports ---------------------------------------------------------------------------------------------------
struct Exported { bool ok{false}; std::string why; std::vector<std::pair<long, long>> ev; };
// The events of an export as (thread, number).
static Exported parse(const std::string& text) {
  Exported r;
  try {
    const json j = json::parse(text);
    for (const auto& e : j.at("traceEvents")) r.ev.emplace_back(e.at("tid").get<long>(), e.at("ts").get<long>());
    r.ok = true;
  } catch (const std::exception& ex) { r.why = std::string(ex.what()).substr(0, 200); }
  return r;
}
static std::string runs(const std::vector<std::pair<long, long>>& ev) {
  std::vector<std::string> out;
  for (std::size_t k = 0; k < ev.size();) {
    std::size_t j = k + 1;
    while (j < ev.size() && ev[j].first == ev[k].first && ev[j].second == ev[j - 1].second + 1) ++j;
    out.push_back(Obj{}.i("t", ev[k].first).i("a", ev[k].second).i("b", ev[j - 1].second).done());
    k = j;
    if (out.size() > 3000) break;
  }
  return Obj::join(out);
}
static void submit(trace_collector& c, const int t, const long k) { c.submit_event(trace_event{"e", k, 1, static_cast<std::uint32_t>(t), 5000}); }

struct Stamp { long call{0}, ret{0}; };
struct Result { long call, ret; std::string text; };
struct Work {
  std::vector<std::string> ops;   // "submit" or "export" or "<n>" submissions in a row
  std::deque<Stamp> sub;
  std::vector<Result> exp;
};
static void run_ops(trace_collector& c, Work& w, const int t) {
  for (const auto& op : w.ops) {
    const auto now = [] { return g_ctl.clock.fetch_add(1, RX); };
    if (op == "export") { Result r; r.call = now(); r.text = c.get_trace_json(); r.ret = now(); w.exp.push_back(std::move(r)); }
    else if (op == "submit") { w.sub.emplace_back(); w.sub.back().call = now(); submit(c, t, static_cast<long>(w.sub.size())); w.sub.back().ret = now(); }
    point();
  }
}

// ---- scopes ----------------------------------------------------------------------------------------------------
struct Leave {};
static std::deque<std::string> g_names;
struct Prog {
  std::vector<std::string> toks;
  std::vector<std::string_view> names;
  std::size_t pos{0};
  int opened{0};
  struct Times { std::int64_t a0, a1, b0, b1; };
  std::vector<Times> times;
  static std::int64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  void body();
};
struct Stopwatch { Prog& p; int id; ~Stopwatch() { p.times[id].b1 = Prog::now(); } };
struct Inner { Prog& p; int id; ~Inner() { p.times[id].b0 = Prog::now(); } };
struct Guard { Prog& p; ~Guard() { p.body(); } };
// Runs tokens until the one that closes the surrounding frame.
void Prog::body() {
  while (pos < toks.size()) {
    const std::string t = toks[pos++];
    if (t == "open") {
      const int id = opened++;
      times.push_back({now(), 0, 0, 0});
      const Stopwatch w{*this, id};
      const scoped_trace s{names[id]};
      const Inner in{*this, id};
      times[id].a1 = now();
      body();
    } else if (t == "try") {
      try { body(); } catch (const Leave&) { body(); }
    } else if (t == "guard") {
      const Guard g{*this};
      body();
    } else if (t == "throw") throw Leave{};
    else if (t == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(2));
    else return;
  }
}
static void traced_function(const int how) {
  MINI_OPT_FUNCTION_TRACE();
  if (how > 0) { MINI_OPT_SCOPED_TRACE(named_scope); if (how > 1) throw Leave{}; }
}
static std::string hex(const std::string_view v) { std::string r; char b[4]; for (const unsigned char c : v) { std::snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
static std::string unhex(const std::string& s) { std::string r; if (s != "-") for (std::size_t k = 0; k + 1 < s.size(); k += 2) r += static_cast<char>(std::stoi(s.substr(k, 2), nullptr, 16)); return r; }
static std::string number(const json& j) {
  if (j.is_number_unsigned()) return std::to_string(j.get<std::uint64_t>());
  if (j.is_number_integer()) return std::to_string(j.get<std::int64_t>());
  if (j.is_number()) return num(j.get<double>());
  return "nan";
}

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  Reader r(f);
  while (r.more()) {
    r.expect("SCN");
    const std::string id = r.tok(), kind = r.tok();
    g_races.store(0, RX);
    // The destructor of a collector is not usable outside of tracing.cc: they are never deleted.
    const auto fresh = [] { return new trace_collector(); };
    if (kind == "sched") {   // preload, threads: ops, schedule (1-based; empty: run freely)
      const long pre = r.i(); const int n = r.i();
      std::vector<Work> ws(n);
      for (auto& w : ws) for (int k = r.i(); k > 0; --k) w.ops.push_back(r.tok());
      const int len = r.i();
      g_ctl.nsched.store(len, RX); g_ctl.pos.store(0, RX); g_ctl.nthreads.store(n, RX); g_ctl.free_run.store(len == 0, RX); g_ctl.clock.store(1, RX);
      for (int k = 0; k < len; ++k) g_ctl.sched[k].store(r.i() - 1, RX);
      for (auto& k : g_ctl.locks) { k.addr.store(nullptr, RX); k.owner.store(-1, RX); }
      for (int t = 0; t < n; ++t) { g_ctl.done[t].store(false, RX); g_ctl.blocked[t].store(false, RX); }
      const auto c = fresh();
      for (long k = 1; k <= pre; ++k) submit(*c, 0, k);
      g_ctl.turn.store(-1, RX); g_ctl.on.store(true, RX);
      std::vector<std::thread> ths;
      for (int t = 0; t < n; ++t) ths.emplace_back([&, t] {
        g_me = t;
        wait_turn();
        run_ops(*c, ws[t], t + 1);
        g_ctl.done[t].store(true, RX);
        choose(t);
        g_me = -1;
      });
      choose(n - 1);
      for (auto& t : ths) t.join();
      g_ctl.on.store(false, RX);
      const long c0 = g_ctl.clock.fetch_add(1, RX);
      const std::string last = c->get_trace_json();
      const long c1 = g_ctl.clock.fetch_add(1, RX);
      Obj o; o.str("e", "sched").str("scn", id).i("pre", pre).i("races", g_races.load(RX)).b("scheduled", len > 0 && !g_ctl.free_run.load(RX));
      std::vector<std::string> subs, exps; bool ok = true; std::string why;
      for (auto& w : ws) {
        std::vector<std::string> s;
        for (const auto& q : w.sub) s.push_back(Obj{}.i("call", q.call).i("ret", q.ret).done());
        subs.push_back(Obj::join(s));
        for (const auto& e : w.exp) { const Exported x = parse(e.text); if (!x.ok) { ok = false; why = x.why; } exps.push_back(Obj{}.i("call", e.call).i("ret", e.ret).raw("runs", runs(x.ev)).done()); }
      }
      const Exported x = parse(last); if (!x.ok) { ok = false; why = x.why; }
      exps.push_back(Obj{}.i("call", c0).i("ret", c1).raw("runs", runs(x.ev)).done());
      emit_nf(o.raw("sub", Obj::join(subs)).raw("exports", Obj::join(exps)).b("ok", ok).str("why", why));
    } else if (kind == "bulk") {   // threads: number of submissions each; exports while running
      const int n = r.i();
      std::vector<long> cnt(n); for (auto& c : cnt) c = r.i();
      const int nexp = r.i(); const long pre = r.i();
      const auto c = fresh();
      for (long k = 1; k <= pre; ++k) submit(*c, 0, k);
      struct Shared { std::atomic<long> started{0}, returned{0}; };
      std::vector<Shared> sh(n);
      struct Ex { std::vector<long> lo, hi; std::string text; };
      std::vector<Ex> ex;
      const auto take = [&] {
        Ex e;
        for (auto& s : sh) e.lo.push_back(s.returned.load());
        e.text = c->get_trace_json();
        for (auto& s : sh) e.hi.push_back(s.started.load());
        ex.push_back(std::move(e));
      };
      std::vector<std::thread> ths;
      for (int t = 0; t < n; ++t) ths.emplace_back([&, t] { for (long k = 1; k <= cnt[t]; ++k) { sh[t].started.store(k); submit(*c, t + 1, k); sh[t].returned.store(k); } });
      for (int k = 0; k < nexp; ++k) take();
      for (auto& t : ths) t.join();
      take();
      std::vector<std::string> outs; bool ok = true; std::string why;
      for (const auto& e : ex) {
        const Exported x = parse(e.text);
        if (!x.ok) { ok = false; why = x.why; }
        std::vector<std::string> pt(n + 1);
        for (int t = 0; t <= n; ++t) { std::vector<std::pair<long, long>> mine; for (const auto& v : x.ev) if (v.first == t) mine.push_back(v); pt[t] = runs(mine); }
        std::vector<std::string> lo{std::to_string(pre)}, hi{std::to_string(pre)};
        for (const long v : e.lo) lo.push_back(std::to_string(v));
        for (const long v : e.hi) hi.push_back(std::to_string(v));
        outs.push_back(Obj{}.i("size", static_cast<long>(x.ev.size())).raw("per", Obj::join(pt)).raw("lo", Obj::join(lo)).raw("hi", Obj::join(hi)).done());
      }
      emit_nf(Obj{}.str("e", "bulk").str("scn", id).i("races", g_races.load(RX)).b("ok", ok).str("why", why).raw("exports", Obj::join(outs)));
    } else if (kind == "fields") {   // name ts pid tid dur
      const auto c = fresh();
      std::vector<std::string> want, got; std::deque<std::string> keep;
      for (int k = r.i(); k > 0; --k) {
        keep.push_back(unhex(r.tok()));
        const std::string ts = r.tok(), pid = r.tok(), tid = r.tok(), dur = r.tok();
        const std::size_t pad = keep.size() % 3; keep.back() += std::string(pad, 'Z');   // the name is a view into a longer string
        const std::string_view nm{keep.back().data(), keep.back().size() - pad};
        c->submit_event(trace_event{nm, std::stoll(ts), static_cast<std::uint32_t>(std::stoul(pid)), static_cast<std::uint32_t>(std::stoul(tid)), std::stoll(dur)});
        want.push_back(Obj{}.str("name", hex(nm)).str("ts", ts).str("pid", pid).str("tid", tid).str("dur", dur).done());
      }
      const std::string a = c->get_trace_json(), b = c->get_trace_json();
      bool ok = true; std::string why;
      try {
        const json j = json::parse(a);
        for (const auto& e : j.at("traceEvents"))
          got.push_back(Obj{}.str("name", hex(e.at("name").get<std::string>())).str("ts", number(e.at("ts"))).str("pid", number(e.at("pid"))).str("tid", number(e.at("tid"))).str("dur", number(e.at("dur"))).str("ph", e.at("ph").get<std::string>()).done());
      } catch (const std::exception& ex) { ok = false; why = std::string(ex.what()).substr(0, 200); }
      emit_nf(Obj{}.str("e", "fields").str("scn", id).b("ok", ok).str("why", why).b("again", a == b).raw("want", Obj::join(want)).raw("got", Obj::join(got)));
    } else if (kind == "scopes") {   // threads: programs
      const int n = r.i();
      struct Th { std::deque<Prog> progs; long tid{0}; };
      std::vector<Th> th(n);
      for (int t = 0; t < n; ++t) for (int k = r.i(); k > 0; --k) {
        Prog p;
        for (int q = r.i(); q > 0; --q) { p.toks.push_back(r.tok()); if (p.toks.back() == "open") { g_names.push_back(id + "/" + std::to_string(t) + "/" + std::to_string(th[t].progs.size()) + "/" + std::to_string(p.names.size() + 1)); p.names.push_back(g_names.back()); } }
        th[t].progs.push_back(std::move(p));
      }
      const std::size_t before = parse(trace_collector::get_instance()->get_trace_json()).ev.size();
      std::vector<std::thread> ths;
      const auto go = [&](const int t) { th[t].tid = syscall(SYS_gettid); for (auto& p : th[t].progs) { p.times.reserve(p.toks.size()); p.body(); } };
      for (int t = 1; t < n; ++t) ths.emplace_back(go, t);
      if (n > 0) go(0);
      for (auto& t : ths) t.join();
      // functions and macros
      traced_function(0); traced_function(1);
      try { traced_function(2); } catch (const Leave&) {}
      bool ok = true; std::string why; json j;
      try { j = json::parse(trace_collector::get_instance()->get_trace_json()); (void)j.at("traceEvents").size(); } catch (const std::exception& ex) { ok = false; why = std::string(ex.what()).substr(0, 200); }
      std::vector<std::vector<std::vector<std::string>>> got(n); std::vector<std::string> macros, stray; std::map<std::string, json> at;
      for (int t = 0; t < n; ++t) got[t].resize(th[t].progs.size());
      if (ok) for (std::size_t k = before; k < j["traceEvents"].size(); ++k) {
        const auto& e = j["traceEvents"][k];
        const std::string nm = e.at("name").get<std::string>();
        int t, p, s;
        if (nm.compare(0, id.size() + 1, id + "/") == 0 && std::sscanf(nm.c_str() + id.size(), "/%d/%d/%d", &t, &p, &s) == 3) { got[t][p].push_back(std::to_string(s)); at[nm] = e; }
        else if (e.at("tid").get<long>() == th[0].tid && e.at("pid").get<long>() == getpid()) macros.push_back(Obj::quote(nm));
        else stray.push_back(Obj::quote(nm));
      }
      std::vector<std::string> ps, ts;
      std::int64_t base = -1, tsbase = 0, w0 = 0, w1 = 0;
      for (int t = 0; t < n; ++t) for (std::size_t p = 0; p < th[t].progs.size(); ++p) {
        const Prog& q = th[t].progs[p];
        std::vector<std::string> tk; for (const auto& x : q.toks) if (x != "sleep") tk.push_back(Obj::quote(x));
        ps.push_back(Obj{}.raw("toks", Obj::join(tk)).raw("got", Obj::join(got[t][p])).done());
        for (std::size_t s = 0; s < q.times.size(); ++s) {
          const auto it = at.find(std::string(q.names[s]));
          if (it == at.end()) continue;
          const auto& e = it->second; const auto& w = q.times[s];
          // times relative to the first recorded scope, in microseconds (rounded outwards)
          const std::int64_t es = e.at("ts").get<std::int64_t>();
          if (base < 0) { base = w.a0; tsbase = es; w0 = w.a0; w1 = w.a1; }
          ts.push_back(Obj{}.i("ts", es - tsbase).i("dur", e.at("dur").get<long>()).i("ts_lo", (w.a0 - w1) / 1000 - 2).i("ts_hi", (w.a1 - w0) / 1000 + 2)
                           .i("dur_lo", (w.b0 - w.a1) / 1000 - 2).i("dur_hi", (w.b1 - w.a0) / 1000 + 2).b("own_tid", e.at("tid").get<long>() == th[t].tid).b("own_pid", e.at("pid").get<long>() == getpid()).done());
        }
      }
      emit_nf(Obj{}.str("e", "scopes").str("scn", id).b("ok", ok).str("why", why).i("races", g_races.load(RX)).i("threads", n).raw("progs", Obj::join(ps)).raw("times", Obj::join(ts)).raw("macros", Obj::join(macros)).raw("stray", Obj::join(stray)));
    } else { std::fprintf(stderr, "unknown kind %s\n", kind.c_str()); return 3; }
    emit(Obj{}.str("e", "end").str("scn", id));
  }
  std::fflush(stdout);
  syscall(SYS_exit_group, 0);   // a race report must not change the exit status, a crash must
}

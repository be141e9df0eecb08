// C08: inplace_stop_source / token / callback protocol.
#include "vrt.hpp"
#include <stdexec/stop_token.hpp>
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include <optional>
namespace ex = STDEXEC;
using src_t = ex::inplace_stop_source;

namespace {
enum : unsigned { N = 8, TMAX = 5 };
struct World;
struct Fn { World* w; int i; void operator()() noexcept; };
using cb_t = ex::inplace_stop_callback<Fn>;
struct Slot {
  vrt::cell<int> reg_begin, reg_end, dereg_begin, dereg_end, exec, running, runner, regtid, inlined, stop_before_reg;
  std::atomic<cb_t*> owner{nullptr};   // whoever exchanges it to null deletes
  cb_t* raw = nullptr;                 // storage address
  int action = 0, target = -1;
  int before = 0;                      // written by the registering thread before registration
  int inside = 0;                      // written inside the callback
};
struct World {
  std::unique_ptr<src_t> src{new src_t};
  Slot s[N];
  vrt::cell<int> requests, wins, winner, in_req[32], win_done, stop_seen;
  int nest = 0;
  int pre_data[TMAX + 2] = {};
};
// monitor helpers: never instrumented, never synchronising
VRT_NOINSTR void m_exec_begin(World& w, int i) {
  Slot& s = w.s[i];
  if (s.exec.inc() != 1) vrt::fail("callback %d invoked %d times", i, s.exec.get());
  if (s.dereg_end.get()) vrt::fail("callback %d invoked after its destructor had returned", i);
  if (!w.requests.get()) vrt::fail("callback %d invoked although stop was never requested", i);
  s.running.set(1); s.runner.set(vrt::tid());
  bool inl = s.regtid.get() == vrt::tid() && !s.reg_end.get();
  s.inlined.set(inl);
  if (!inl && !w.in_req[vrt::tid()].get()) vrt::fail("callback %d invoked on thread %d, which is neither requesting stop nor registering it", i, vrt::tid());
  vrt::log(1, i, inl);
}
VRT_NOINSTR void m_exec_end(World& w, int i) { w.s[i].running.set(0); vrt::log(2, i); }
VRT_NOINSTR void m_dereg_end(World& w, int i, bool self_) {
  Slot& s = w.s[i];
  s.dereg_end.set(1);
  if (s.running.get() && s.runner.get() != vrt::tid()) vrt::fail("destructor of callback %d returned on thread %d while it runs on thread %d", i, vrt::tid(), s.runner.get());
  (void)self_;
  vrt::log(3, i);
}
void destroy(World& w, int i) {
  Slot& s = w.s[i];
  cb_t* p = s.owner.exchange(nullptr, std::memory_order_acq_rel);
  if (!p) return;
  s.dereg_begin.set(1);
  bool self_ = s.running.get() && s.runner.get() == vrt::tid();
  p->~cb_t();
  m_dereg_end(w, i, self_);
  if (!self_ && s.exec.get()) {   // effects of the callback are visible once the destructor returned
    if (s.inside != 100 + i) vrt::fail("effects of callback %d not visible after its destructor", i);
  }
  ::operator delete(p);
}
void reg(World& w, int i) {
  Slot& s = w.s[i];
  s.before = 200 + i;
  void* mem = ::operator new(sizeof(cb_t));
  s.raw = (cb_t*)mem;
  s.regtid.set(vrt::tid());
  s.stop_before_reg.set(w.stop_seen.get());
  s.reg_begin.set(1);
  cb_t* p = new (mem) cb_t(w.src->get_token(), Fn{&w, i});
  s.reg_end.set(1);
  vrt::log(4, i);
  if (s.stop_before_reg.get() && s.exec.get() != 1) vrt::fail("callback %d registered after stop was requested did not run during registration", i);
  s.owner.store(p, std::memory_order_release);
}
bool request(World& w) {
  // snapshot of callbacks that must have run when a winning request returns
  unsigned must = 0;
  for (unsigned i = 0; i < N; i++) if (w.s[i].reg_end.get() && !w.s[i].dereg_begin.get()) must |= 1u << i;
  w.requests.inc();
  int t = vrt::tid();
  w.in_req[t].inc();
  bool r = w.src->request_stop();
  w.in_req[t].inc(-1);
  w.stop_seen.set(1);
  vrt::log(5, r);
  if (r) {
    if (w.wins.inc() != 1) vrt::fail("more than one request_stop returned true");
    w.winner.set(t); w.win_done.set(1);
    for (unsigned i = 0; i < N; i++) if (must >> i & 1) { Slot& s = w.s[i]; if (!s.exec.get() && !s.dereg_begin.get()) vrt::fail("request_stop returned without invoking registered callback %u", i); if (s.running.get()) vrt::fail("request_stop returned while callback %u still runs", i); }
  }
  if (!w.src->stop_requested()) vrt::fail("stop_requested is false after request_stop returned");
  return r;
}
void Fn::operator()() noexcept {
  World& w_ = *w; int i_ = i;
  m_exec_begin(w_, i_);
  Slot& s = w_.s[i_];
  if (s.before != 200 + i_) vrt::fail("state written before registration not visible in callback %d", i_);
  s.inside = 100 + i_;
  vrt::point();
  switch (s.action) {
    case 1: if (!s.inlined.get()) { vrt::cover("self-deregistration"); destroy(w_, i_); } break;   // *this is gone now
    case 2: if (s.target >= 0 && s.target != i_) { vrt::cover("cross-deregistration"); destroy(w_, s.target); } break;
    case 3: { vrt::cover("nested request"); bool r = w_.src->request_stop(); if (r) vrt::fail("request_stop returned true from inside a callback"); break; }
    case 4: if (!w_.src->stop_requested()) vrt::fail("stop_requested false inside a callback"); break;
    case 5: if (s.target >= 0 && !w_.s[s.target].reg_begin.get()) { w_.stop_seen.set(1); vrt::cover("nested registration"); reg(w_, s.target); } break;
    default: break;
  }
  vrt::point();
  m_exec_end(w_, i_);
}
void finish(World& w) {
  for (unsigned i = 0; i < N; i++) destroy(w, (int)i);
  int ran = 0, inl = 0;
  for (unsigned i = 0; i < N; i++) { ran += w.s[i].exec.get(); inl += w.s[i].inlined.get(); if (w.s[i].exec.get() && !w.s[i].inlined.get() && w.s[i].runner.get() != w.winner.get()) vrt::fail("callback %u ran on a thread other than the one whose request_stop succeeded", i); }
  if (w.requests.get() && w.wins.get() != 1) vrt::fail("%d request_stop calls, %d returned true", w.requests.get(), w.wins.get());
  vrt::outcome("req=%d ran=%d inline=%d", w.requests.get(), ran, inl);
}
void run_threads(World& w, std::vector<std::vector<std::pair<int, int>>> prog) {
  std::vector<std::thread> th;
  for (auto& p : prog) th.emplace_back([&w, p] {
    bool seen = false;
    for (auto [op, i] : p) switch (op) {
      case 0: reg(w, i); break;
      case 1: destroy(w, i); break;
      case 2: request(w); break;
      case 3: { bool b = w.src->stop_requested(); if (seen && !b) vrt::fail("stop_requested went back to false"); seen |= b; if (b) w.stop_seen.set(1); auto t = w.src->get_token(); if (!t.stop_possible()) vrt::fail("token of a live source reports stop impossible"); break; }
      default: vrt::point();
    }
  });
  for (auto& t : th) t.join();
}
}  // namespace

// random programs: every callback has one registering thread; deregistration by its thread, another
// thread, itself, or another callback
VRT_SCENARIO_F(stop_random, 0, 40) {
  World w;
  unsigned nt = vrt::range(2, 4), nc = vrt::range(1, N);
  std::vector<std::vector<std::pair<int, int>>> prog(nt);
  for (unsigned i = 0; i < nc; i++) {
    Slot& s = w.s[i]; s.action = (int)vrt::choose(6); s.target = (int)vrt::choose(nc);
    if (s.action == 5) s.target = -1;
    unsigned t = vrt::choose(nt);
    prog[t].push_back({0, (int)i});
    if (vrt::chance(60)) prog[vrt::chance(60) ? t : vrt::choose(nt)].push_back({1, (int)i});
    if (vrt::chance(20)) prog[vrt::choose(nt)].push_back({3, 0});
  }
  unsigned nr = vrt::range(0, 3);
  for (unsigned r = 0; r < nr; r++) { auto& p = prog[vrt::choose(nt)]; p.insert(p.begin() + vrt::choose((unsigned)p.size() + 1), {2, 0}); }
  for (unsigned t = 0; t < nt; t++) { vrt::describe("T%u:", t); for (auto [o, i] : prog[t]) vrt::describe("%c%d ", "RDSq"[o], i); }
  run_threads(w, prog);
  finish(w);
}
// callback registered from inside another callback
VRT_SCENARIO_F(stop_nested_registration, 0, 10) {
  World w;
  unsigned n = vrt::range(1, 3);
  for (unsigned i = 0; i < n; i++) { w.s[i].action = 5; w.s[i].target = (int)(n + i); w.s[n + i].action = (int)vrt::choose(5); w.s[n + i].target = (int)vrt::choose(n); if (w.s[n + i].action == 2) w.s[n + i].action = 0; }
  std::vector<std::vector<std::pair<int, int>>> prog(3);
  for (unsigned i = 0; i < n; i++) { prog[vrt::choose(2)].push_back({0, (int)i}); }
  prog[vrt::choose(2)].push_back({2, 0});
  prog[2].push_back({vrt::chance(50) ? 2 : 3, 0});
  for (unsigned i = 0; i < n; i++) if (vrt::chance(50)) prog[2].push_back({1, (int)i});
  run_threads(w, prog);
  finish(w);
}
// the tight deregister-versus-invoke window, with reuse of the memory right after the destructor
VRT_SCENARIO_F(stop_dereg_race, 0, 20) {
  World w;
  unsigned n = vrt::range(1, 3);
  for (unsigned i = 0; i < n; i++) { w.s[i].action = vrt::chance(30) ? 1 : 0; reg(w, (int)i); }
  std::vector<std::vector<std::pair<int, int>>> prog(2 + vrt::choose(2));
  prog[0].push_back({2, 0});
  for (unsigned i = 0; i < n; i++) { unsigned j = vrt::choose(n); prog[1].push_back({1, (int)j}); }
  if (prog.size() > 2) { prog[2].push_back({vrt::chance(50) ? 2 : 1, (int)vrt::choose(n)}); }
  run_threads(w, prog);
  finish(w);
}
// what the requester did before request_stop is visible to whoever observes the request
VRT_SCENARIO_F(stop_publication, 0, 10) {
  auto src = std::make_unique<src_t>();
  int data = 0; vrt::cell<int> ran;
  unsigned mode = vrt::choose(3);
  std::thread a([&] { data = 42; src->request_stop(); });
  std::thread b([&] {
    if (mode == 0) { auto f = [&]() noexcept { ran.inc(); if (data != 42) vrt::fail("stale data in callback"); }; ex::inplace_stop_callback<decltype(f)> cb(src->get_token(), f); }
    else if (mode == 1) { if (src->stop_requested()) { ran.inc(); if (data != 42) vrt::fail("stale data after stop_requested"); } }
    else { auto t = src->get_token(); for (int i = 0; i < 3 && !t.stop_requested(); i++) vrt::point(); if (t.stop_requested()) { ran.inc(); if (data != 42) vrt::fail("stale data after stop_requested"); } }
  });
  a.join(); b.join();
  vrt::observed();
  vrt::outcome("mode=%u ran=%d", mode, ran.get());
}
// several sources chained by forwarding callbacks (the shape every algorithm uses)
VRT_SCENARIO_F(stop_chain, 0, 10) {
  struct Fwd { src_t* s; void operator()() const noexcept { s->request_stop(); } };
  auto a = std::make_unique<src_t>(), b = std::make_unique<src_t>();
  vrt::cell<int> ran;
  auto f = [&]() noexcept { ran.inc(); };
  std::thread t1([&] { a->request_stop(); });
  std::thread t2([&] { if (vrt::chance(50)) b->request_stop(); });
  {
    std::optional<ex::inplace_stop_callback<Fwd>> l; l.emplace(a->get_token(), Fwd{b.get()});
    std::optional<ex::inplace_stop_callback<decltype(f)>> leaf; leaf.emplace(b->get_token(), f);
    if (vrt::chance(50)) vrt::point();
    if (vrt::chance(30)) t1.join();
    bool must = !t1.joinable();
    l.reset();
    if (must && !b->stop_requested()) vrt::fail("chained stop request lost");
    leaf.reset();
    int r = ran.get(); if (r > 1) vrt::fail("leaf callback ran %d times", r);
    if (must && r != 1) vrt::fail("leaf callback not run by chained request");
  }
  if (t1.joinable()) t1.join();
  t2.join();
  b.reset();
  vrt::observed();
  vrt::outcome("ran=%d", ran.get());
}
// throwing construction of the callable leaves nothing registered
VRT_SCENARIO_F(stop_throwing_callable, vrt::F_SEQ, 3) {
  struct Thr { int* n; bool th; Thr(int* p, bool t) : n(p), th(t) {} Thr(Thr const& o) : n(o.n), th(o.th) { if (th) throw 1; } void operator()() noexcept { ++*n; } };
  int n = 0; src_t s; Thr t(&n, vrt::chance(50)); bool threw = false;
  try { std::optional<ex::inplace_stop_callback<Thr>> cb; cb.emplace(s.get_token(), t); s.request_stop(); } catch (int) { threw = true; }
  s.request_stop();
  vrt::observed();
  if (threw != t.th || n != (t.th ? 0 : 1)) vrt::fail("throwing callable: threw=%d n=%d", threw, n);
}

// C14: simple_counting_scope and counting_scope: admission, counting and joining.
#include "mon.hpp"
#include <stdexec/stop_token.hpp>
using namespace mon;

namespace {
template <class Scope> struct World {
  Run run;
  std::unique_ptr<Scope> sc{std::make_unique<Scope>()};
  vrt::cell<int> live, granted, refused, close_begun, close_done, join_begun, joins_done, destroyed, stop_begun;
  int data[4][4] = {};                            // [worker][association]: plain memory, written under an association
  vrt::cell<int> wrote[4];
  std::atomic<int> joins_left{0};
  Rec joins[3]; int njoins = 1; bool destroy_in_join = false;
  ex::run_loop loop;
  using tok_t = decltype(std::declval<Scope&>().get_token());
  using assoc_t = decltype(std::declval<tok_t&>().try_associate());

  template <class F> assoc_t attempt(bool held, F&& f) {   // held: the caller holds an association meanwhile
    bool must_refuse = close_done.get() || joins_done.get();
    bool quiet_before = !close_begun.get() && (held || !join_begun.get());
    assoc_t a = f();
    if (a) {
      live.inc(); granted.inc();
      if (must_refuse) vrt::fail("an association was granted after %s", joins_done.get() ? "the scope had been joined" : "close() had returned");
      if (joins_done.get()) vrt::fail("join() completed while an association was granted");
    } else {
      refused.inc();
      if (quiet_before && !close_begun.get() && (held || !join_begun.get())) vrt::fail("an association was refused although the scope was open");
    }
    return a;
  }
  void drop(assoc_t& a) { live.inc(-1); { assoc_t dead = std::move(a); } if (a) vrt::fail("a released association still claims to hold one"); }
  void close() { close_begun.set(1); sc->close(); close_done.set(1); }
  void stop() { if constexpr (requires { sc->request_stop(); }) { stop_begun.set(1); sc->request_stop(); } }
  static void on_join(Rec* r) noexcept {
    World* w = (World*)r->user;
    vrt::observed();
    if (w->live.get()) vrt::fail("join() completed while %d associations are outstanding", w->live.get());
    if (r->ch.get() != VALUE) vrt::fail("join() completed with %s", chname(r->ch.get()));
    int n = 0;
    for (int i = 0; i < 4; i++) for (int k = 0; k < w->wrote[i].get(); k++) n += w->data[i][k];   // ordered after every release
    if (n != w->granted_written()) vrt::fail("the join's continuation does not see what was done under the associations");
    w->joins_done.inc();
    if (w->joins_left.fetch_add(1, std::memory_order_acq_rel) + 1 == w->njoins && w->destroy_in_join) { w->sc.reset(); w->destroyed.set(1); vrt::cover("scope destroyed by its join's continuation"); }
  }
  int granted_written() { int n = 0; for (auto& x : wrote) n += x.get(); return n; }
  template <class Sch> void make_join(int i, Sch sch) {
    joins[i].name = "join"; joins[i].mode = (Mode)vrt::choose(3); joins[i].user = this; joins[i].after = on_join;
    mon::connect(joins[i], sc->join(), SchEnv<Sch>{sch, {}});
  }
  void start_join(int i) { join_begun.inc(); joins[i].start(); }
  // a worker: a random sequence of admissions and releases, some through copies of an association
  void worker(int id, assoc_t base, int steps) {
    tok_t tok = sc->get_token();
    std::vector<assoc_t> held; held.reserve(8);
    bool has_base = (bool)base;
    if (has_base) { held.push_back(std::move(base)); vrt::observed(); }
    for (int k = 0; k < steps; k++) {
      switch (vrt::choose(has_base ? 8 : 6)) {
        case 0: case 1: case 2: { auto a = attempt(!held.empty(), [&] { return tok.try_associate(); }); if (a) held.push_back(std::move(a)); break; }
        case 3: if (!held.empty()) { auto a = attempt(true, [&] { return held.back().try_associate(); }); if (a) held.push_back(std::move(a)); vrt::cover("associated through an association"); } break;
        case 4: case 5: if ((int)held.size() > (has_base ? 1 : 0)) { work(id); drop(held.back()); held.pop_back(); } break;
        case 6: if (vrt::chance(50)) close(); else stop(); break;
        case 7: { assoc_t e{}; if (e || e.try_associate()) vrt::fail("an empty association grants one"); break; }
      }
    }
    while (!held.empty()) { work(id); drop(held.back()); held.pop_back(); }
  }
  void work(int id) { int k = wrote[id].get(); if (k < 4) { data[id][k] = 1; wrote[id].set(k + 1); } }
};

template <class Scope> void free_for_all() {      // threads come and go; the scope outlives them
  auto* w = new World<Scope>; std::unique_ptr<World<Scope>> own(w);
  w->njoins = vrt::range(1, 2);
  std::thread ts[3]; int nt = vrt::range(1, 3);
  for (int i = 0; i < nt; i++) ts[i] = std::thread([w, i] { w->worker(i, {}, vrt::range(1, 6)); });
  for (int i = 0; i < w->njoins; i++) w->make_join(i, ex::inline_scheduler{});
  bool closer = vrt::chance(60);
  std::thread tc;
  if (closer) tc = std::thread([w] { if (vrt::chance(30)) w->stop(); w->close(); vrt::cover("close from another thread"); });
  for (int i = 0; i < w->njoins; i++) { if (vrt::chance(50)) std::this_thread::yield(); w->start_join(i); }
  for (int i = 0; i < w->njoins; i++) w->joins[i].finish();
  { auto a = w->sc->get_token().try_associate(); if (a) vrt::fail("an association was granted after join() completed"); }
  for (auto& t : ts) if (t.joinable()) t.join();
  if (tc.joinable()) tc.join();
  vrt::outcome("%d granted, %d refused", w->granted.get(), w->refused.get());
  vrt::observed(w->granted.get() + w->refused.get());
}
template <class Scope> void last_one_out() {      // everybody works under an association; the join destroys the scope
  auto* w = new World<Scope>; std::unique_ptr<World<Scope>> own(w);
  w->njoins = vrt::range(1, 3); w->destroy_in_join = true;
  std::thread ts[3]; int nt = vrt::range(0, 3);
  for (int i = 0; i < w->njoins; i++) w->make_join(i, ex::inline_scheduler{});
  if (nt == 0 && vrt::chance(50)) w->close();
  int by_worker = nt && vrt::chance(30) ? 0 : -1;   // one join is started by a worker, under its association
  typename World<Scope>::assoc_t base[3];
  for (int i = 0; i < nt; i++) base[i] = w->attempt(false, [&] { return w->sc->get_token().try_associate(); });
  for (int i = 0; i < nt; i++)
    ts[i] = std::thread([w, i, by_worker, a = std::move(base[i])]() mutable { if (i == 0 && by_worker == 0) w->start_join(0); w->worker(i, std::move(a), vrt::range(0, 5)); });
  // the joins that main starts: the scope lives on until the last of them has completed
  for (int i = by_worker == 0 ? 1 : 0; i < w->njoins; i++) w->start_join(i);
  for (int i = 0; i < w->njoins; i++) w->joins[i].finish();
  for (auto& t : ts) if (t.joinable()) t.join();
  if (!w->destroyed.get()) vrt::fail("scope not destroyed");
  vrt::outcome("%d workers, %d joins", nt, w->njoins);
}
template <class Scope> void on_loop() {            // the join completes on its scheduler
  auto* w = new World<Scope>; std::unique_ptr<World<Scope>> own(w);
  w->njoins = vrt::range(1, 2);
  vrt::cell<int> loop_tid;
  std::thread ts[2]; int nt = vrt::range(1, 2);
  for (int i = 0; i < w->njoins; i++) w->make_join(i, w->loop.get_scheduler());
  bool none = vrt::chance(15);
  for (int i = 0; i < nt && !none; i++) {
    auto a = w->attempt(false, [&] { return w->sc->get_token().try_associate(); });
    if (!a) continue;
    ts[i] = std::thread([w, i, a = std::move(a)]() mutable { w->worker(i, std::move(a), vrt::range(0, 4)); });
  }
  std::thread lt([w, &loop_tid] { loop_tid.set(vrt::tid()); w->loop.run(); });
  int inl = 0;
  for (int i = 0; i < w->njoins; i++) { w->start_join(i); inl += w->joins[i].done() && w->joins[i].tid.get() == vrt::tid(); }
  for (int i = 0; i < w->njoins; i++) w->joins[i].finish();
  for (int i = 0; i < w->njoins; i++) if (w->joins[i].tid.get() != loop_tid.get() && w->joins[i].tid.get() != vrt::tid()) vrt::fail("join() completed neither on its scheduler nor on the thread that started it");
  w->loop.finish(); lt.join();
  for (auto& t : ts) if (t.joinable()) t.join();
  vrt::outcome("%d of %d inline", inl, w->njoins);
}
template <class Scope> void unused() {             // scopes without associations need no join
  Run run;
  auto sc = std::make_unique<Scope>();
  auto tok = sc->get_token();
  std::thread t;
  int m = vrt::choose(4);
  if (m == 1) sc->close();
  if (m == 2) { sc->close(); sc->close(); if (tok.try_associate()) vrt::fail("an association was granted after close() had returned"); }
  if (m == 3) { Rec a, b; mon::connect(a, sc->join(), SchEnv<ex::inline_scheduler>{}); mon::connect(b, sc->join(), SchEnv<ex::inline_scheduler>{}); a.start(); b.start(); a.finish(); b.finish(); expect_values(a, {}); expect_values(b, {}); if (tok.try_associate()) vrt::fail("an association was granted by a joined scope"); }
  vrt::observed(); vrt::outcome("%d", m);
  sc.reset();
}
VRT_SCENARIO_F(simple_free_for_all, 0, 20) { free_for_all<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(counting_free_for_all, 0, 12) { free_for_all<ex::counting_scope>(); }
VRT_SCENARIO_F(simple_last_one_out, 0, 20) { last_one_out<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(counting_last_one_out, 0, 12) { last_one_out<ex::counting_scope>(); }
VRT_SCENARIO_F(simple_on_loop, 0, 10) { on_loop<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(counting_on_loop, 0, 6) { on_loop<ex::counting_scope>(); }
VRT_SCENARIO_F(simple_unused, 0, 1) { unused<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(counting_unused, 0, 1) { unused<ex::counting_scope>(); }
}  // namespace

// C16: exec::async_scope, exec::start_detached, exec::start_now.
#include "mon.hpp"
#include <exec/async_scope.hpp>
#include <exec/start_detached.hpp>
#include <exec/start_now.hpp>
using namespace mon;

namespace {
// a sender that completes when told to
struct Gate {
  struct Base { virtual void fire() noexcept = 0; };
  Base* op = nullptr;
  template <class R> struct Op : Base {
    using operation_state_concept = ex::operation_state_tag;
    R r; Gate* g;
    Op(R&& r_, Gate* g_) : r((R&&)r_), g(g_) {}
    void start() & noexcept { g->op = this; }
    void fire() noexcept override { ex::set_value((R&&)r); }
  };
  struct Snd {
    using sender_concept = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    Gate* g;
    template <class R> Op<R> connect(R r) const { return Op<R>((R&&)r, g); }
  };
  Snd s() { return Snd{this}; }
};
struct AllocEnv {
  Arena* a;
  [[nodiscard]] auto query(ex::get_allocator_t) const noexcept { return Alloc<>(a); }
};
int data[8];                                     // plain memory written by the work and read after waiting for it
auto quiet_leaf(Scene& sc, int i) { data[i] = 0; return sc.s(i) | ex::then([own = Val(1), i](Val v) noexcept { v.chk("read"); own.chk("used"); data[i]++; }) | ex::upon_error([i](auto&&) noexcept { data[i]++; }); }
auto own_leaf(Scene& sc, int i) { return sc.s(i) | ex::then([own = Val(1)](Val v) { own.chk("used"); return v; }); }

// an async_scope with up to three waiters; the last of them destroys it from within its completion
struct Home {
  Scene* sc;
  std::unique_ptr<exec::async_scope> scope{std::make_unique<exec::async_scope>()};
  Rec wait[3]; int nw; std::atomic<int> left; vrt::cell<int> begun, empty, stop_begun, futures_live;
  Gate gate; Rec hold; bool read_data = false;
  explicit Home(Scene& s) : sc(&s), nw(vrt::chance(60) ? 1 : vrt::range(2, 3)), left(nw) {
    for (int i = 0; i < nw; i++) {
      Rec& w = wait[i]; w.name = "on_empty"; w.mode = (Mode)vrt::choose(3); w.user = this;
      w.after = [](Rec* r) noexcept {
        Home* h = (Home*)r->user; h->empty.set(1); vrt::observed();
        for (auto& l : h->sc->lv) if (l->running.get()) vrt::fail("on_empty completed while %s is outstanding", l->name);
        if (h->read_data) for (int k = 0; k < h->sc->n(); k++) if (data[k] != (h->sc->L(k).starts.get() && h->sc->L(k).how_done.get() != STOPPED)) vrt::fail("on_empty completed but the effects of the work are not visible");
        if (h->gate.op) vrt::fail("on_empty completed while a nested operation is outstanding");
        if (h->left.fetch_sub(1, std::memory_order_acq_rel) == 1) h->scope.reset();
      };
      if (vrt::chance(60)) mon::connect(w, scope->on_empty()); else { mon::connect(w, scope->when_empty(ex::just(4))); vrt::cover("when_empty"); }
    }
    hold.name = "held operation"; hold.mode = vrt::chance(50) ? SELF : HANDOFF;
    mon::connect(hold, scope->nest(gate.s()));
    hold.start();
  }
  exec::async_scope& operator*() { return *scope; }
  exec::async_scope* operator->() { return scope.get(); }
  void stop() { stop_begun.set(1); scope->request_stop(); }
  // nothing new is added from here on
  void release() { auto* o = std::exchange(gate.op, nullptr); o->fire(); hold.finish(); expect_values(hold, {}); }
  std::thread wt[2];
  void start_waiters(int from) { for (int i = from; i < nw; i++) { if (i && i < 3 && vrt::chance(50) && !wt[i - 1].joinable()) wt[i - 1] = std::thread([this, i] { wait[i].start(); }); else wait[i].start(); } }
  void finish() {
    for (int i = 0; i < nw; i++) { wait[i].finish(); if (wait[i].ch.get() != VALUE) vrt::fail("on_empty completed with %s", chname(wait[i].ch.get())); }
    for (auto& t : wt) if (t.joinable()) t.join();
    hold.destroy();
    if (scope) vrt::fail("the scope is still alive");
  }
};

VRT_SCENARIO_F(scope_spawn, 0, 16) {
  Scene sc(vrt::range(1, 4)); Home h(sc); h.read_data = true;
  for (int& d : data) d = 0;
  bool stop = vrt::chance(50), two = sc.n() > 1 && vrt::chance(50), early = vrt::chance(40);
  if (stop) for (int i = 0; i < sc.n(); i++) if (vrt::chance(40)) sc.never(i);
  sc.open();
  if (early) h.start_waiters(1), h.wait[0].start();
  vrt::cell<int> threw[8];
  auto one = [&](int i) {
    if (i == 0 && vrt::chance(25)) {
      auto snd = quiet_leaf(sc, i); G.moves_throw = true; arm(vrt::range(1, 6), 55, true);
      try { h->spawn(std::move(snd)); } catch (Boom const&) { threw[i].set(1); }
      arm(0, 0); G.moves_throw = false;
    } else h->spawn(quiet_leaf(sc, i));
    if (!threw[i].get() && sc.L(i).starts.get() != 1) vrt::fail("spawn started its sender %d times", sc.L(i).starts.get());
    if (threw[i].get() && sc.L(i).starts.get()) vrt::fail("spawn threw although its sender was started");
  };
  std::thread other, stopper;
  if (two) other = std::thread([&] { for (int i = 1; i < sc.n(); i += 2) one(i); });
  if (stop) stopper = std::thread([&] { h.stop(); vrt::cover("stop requested on the scope"); });
  for (int i = 0; i < sc.n(); i += two ? 2 : 1) one(i);
  if (other.joinable()) other.join();
  if (stopper.joinable()) stopper.join();
  if (h.empty.get()) vrt::fail("on_empty completed although an operation is nested");
  if (early) h.release();
  else if (vrt::chance(50)) { h.release(); h.start_waiters(0); }
  else { h.start_waiters(0); h.release(); }
  h.finish(); sc.close();
  for (auto& l : sc.lv) { int i = &l - &sc.lv[0]; if (l->starts.get() != !threw[i].get() || l->completes.get() != l->starts.get()) vrt::fail("%s: %d starts, %d completions", l->name, l->starts.get(), l->completes.get());
    if (stop && l->starts.get() && !l->stop_possible.get()) vrt::fail("the scope's stop token is not visible in a spawned operation"); }
  vrt::outcome("%d waiters%s", h.nw, stop ? ", stopped" : "");
}
VRT_SCENARIO_F(scope_nest, 0, 14) {
  Scene sc(vrt::range(1, 3)); Home h(sc);
  bool stop = vrt::chance(50);
  if (stop) for (int i = 0; i < sc.n(); i++) if (vrt::chance(40)) sc.never(i);
  bool boom = vrt::chance(15); if (boom) { G.moves_throw = true; arm(vrt::range(1, 12), 66); }
  std::vector<std::unique_ptr<Rec>> rs;
  int bad[3] = {};
  for (int i = 0; i < sc.n(); i++) {
    rs.push_back(std::make_unique<Rec>()); rs[i]->name = "nested operation"; rs[i]->mode = (Mode)vrt::choose(3);
    try { mon::connect(*rs[i], h->nest(own_leaf(sc, i))); } catch (Boom const&) { bad[i] = 1; }
  }
  sc.open();
  std::thread stopper;
  bool early = vrt::chance(50);
  int unstarted = vrt::chance(20) ? vrt::choose(sc.n()) : -1;
  if (early) h.start_waiters(1), h.wait[0].start();
  if (stop) stopper = std::thread([&] { h.stop(); });
  for (int i = 0; i < sc.n(); i++) if (!bad[i]) { if (i == unstarted) { rs[i]->destroy(); vrt::cover("nested operation dropped unstarted"); } else rs[i]->start(); }
  if (stopper.joinable()) stopper.join();
  if (h.empty.get()) vrt::fail("on_empty completed although an operation is nested");
  if (!early) { if (vrt::chance(50)) { h.start_waiters(0); h.release(); } else { h.release(); h.start_waiters(0); } }
  else h.release();
  h.finish();
  for (int i = 0; i < sc.n(); i++) {
    if (bad[i] || i == unstarted) { if (sc.L(i).starts.get()) vrt::fail("work ran that nobody started"); continue; }
    if (!rs[i]->done()) vrt::fail("on_empty completed before the nested operation completed its receiver");
    rs[i]->finish(); rs[i]->destroy();
    Leaf& l = sc.L(i);
    if (rs[i]->ch.get() == ERROR && rs[i]->code.get() == 66) { vrt::cover("throw while running"); continue; }
    if (rs[i]->ch.get() != l.how_done.get()) vrt::fail("nest delivered %s instead of %s", chname(rs[i]->ch.get()), chname(l.how_done.get()));
    if (l.how_done.get() == VALUE) expect_values(*rs[i], {l.val}); else expect(*rs[i], l.how_done.get(), l.val);
    if (stop && !l.stop_possible.get()) vrt::fail("the scope's stop token is not visible in a nested operation");
  }
  sc.close();
  vrt::outcome("%d nested%s", sc.n(), stop ? ", stopped" : "");
}
enum Fate { CONSUME, DROP, DROP_CONNECTED };
VRT_SCENARIO_F(scope_future, 0, 20) {
  Scene sc(1, 55); Home h(sc);
  Leaf& l = sc.L(0);
  int fate = vrt::choose(4) ? CONSUME : 1 + (int)vrt::choose(2);
  bool scope_stop = vrt::chance(30);
  if (scope_stop && vrt::chance(50)) sc.never(0);
  int boom = 0; bool pre = vrt::chance(60), threw = false;
  if (vrt::chance(15)) { G.moves_throw = true; boom = 77; }
  sc.rec.name = "future"; sc.rec.after = nullptr;
  sc.open();
  bool early = vrt::chance(30);
  if (early) h.start_waiters(1), h.wait[0].start();
  std::thread stopper, st;
  std::atomic<int> may{0};
  bool late = vrt::chance(20), finished = false;
  if (scope_stop) stopper = std::thread([&] { may.wait(0); h.stop(); });
  if (boom && pre) arm(vrt::range(1, 14), boom);
  auto wait_user = [&] {                                         // who uses the future
    try {
      auto fut = h->spawn_future(own_leaf(sc, 0));
      if (l.starts.get() != 1) vrt::fail("spawn_future started its sender %d times", l.starts.get());
      if (vrt::chance(50)) std::this_thread::yield();
      may.store(1); may.notify_all();
      if (late) {                                  // the future outlives the scope
        if (stopper.joinable()) stopper.join();
        if (early) h.release(); else if (vrt::chance(50)) { h.release(); h.start_waiters(0); } else { h.start_waiters(0); h.release(); }
        h.finish(); vrt::cover("future outlives its scope"); finished = true;
      }
      if (fate == DROP) { auto gone = std::move(fut); vrt::cover("future dropped"); return; }
      sc.prepare(std::move(fut));
      if (boom && !pre) arm(vrt::range(1, 4), boom);
      if (sc.stop_mode == Scene::BEFORE) { sc.request_stop(); vrt::cover("stop before start"); }
      if (sc.stop_mode == Scene::THREAD || sc.stop_mode == Scene::IN_START) st = std::thread([&] { sc.request_stop(); vrt::cover("stop from another thread"); });
      if (fate == DROP_CONNECTED) { sc.rec.destroy(); vrt::cover("connected future dropped unstarted"); if (st.joinable()) st.join(); return; }
      sc.rec.start();
      if (sc.stop_mode == Scene::AFTER) { sc.request_stop(); vrt::cover("stop after start"); }
      sc.rec.wait();
      if (st.joinable()) st.join();
      if (sc.rec.mode == KEEP && vrt::chance(50)) { sc.src->request_stop(); sc.src.reset(); }
      sc.rec.destroy();
    } catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); threw = true; may.store(1); may.notify_all(); }
  };
  if (vrt::chance(25)) { std::thread u(wait_user); u.join(); } else wait_user();
  if (stopper.joinable()) stopper.join();
  if (h.empty.get() && !finished) vrt::fail("on_empty completed although an operation is nested");
  if (finished) ; else if (early) h.release(); else if (vrt::chance(50)) { h.release(); h.start_waiters(0); } else { h.start_waiters(0); h.release(); }
  if (!finished) h.finish();
  sc.close();
  if (l.starts.get() != l.completes.get()) vrt::fail("on_empty completed but the future's operation did not");
  if (threw) { if (l.starts.get()) vrt::fail("spawn_future threw although its sender was started"); vrt::outcome("threw"); return; }
  if (!l.starts.get()) vrt::fail("the future's operation was never started");
  if (fate != CONSUME) { if (sc.rec.count.get()) vrt::fail("a future that was never started completed"); vrt::outcome("dropped"); return; }
  int ch = sc.rec.ch.get();
  if (ch == VALUE) { if (l.how_done.get() != VALUE) vrt::fail("the future delivered a value that was not produced"); expect_values(sc.rec, {l.val}); }
  else if (ch == ERROR) { if (!(boom && G.thrown.get() && sc.rec.code.get() == boom) && !(l.how_done.get() == ERROR && sc.rec.code.get() == l.val)) vrt::fail("the future delivered error %d, which nobody produced", sc.rec.code.get()); }
  else if (l.how_done.get() != STOPPED && !sc.stop_begun.get()) vrt::fail("the future delivered stopped instead of the result %s", chname(l.how_done.get()));
  vrt::outcome("%s", chname(ch));
}
VRT_SCENARIO_F(detached, 0, 12) {
  Scene sc(vrt::range(1, 3), 70); Arena ar;
  sc.open();
  vrt::cell<int> threw;
  ex::inplace_stop_source stop;
  struct E { Arena* a; ex::inplace_stop_token t; [[nodiscard]] auto query(ex::get_allocator_t) const noexcept { return Alloc<>(a); } [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return t; } };
  bool with_stop = vrt::chance(40);
  auto one = [&](int i) {
    int v = with_stop ? 2 : vrt::choose(3);
    if (with_stop && vrt::chance(40)) sc.never(i);
    auto snd = quiet_leaf(sc, i);
    bool boom = i == 0 && vrt::chance(30);
    if (boom) { G.moves_throw = true; arm(vrt::range(1, 7), 55, true); }
    try {
      if (v == 0) exec::start_detached(std::move(snd));
      else if (v == 1) exec::start_detached(std::move(snd), AllocEnv{&ar});
      else exec::start_detached(std::move(snd), E{&ar, stop.get_token()});
    } catch (Boom const&) { threw.set(1); if (sc.L(i).starts.get()) vrt::fail("start_detached threw although its sender was started"); vrt::cover("start_detached threw"); }
    arm(0, 0); G.moves_throw = false;
    if (!(i == 0 && threw.get()) && sc.L(i).starts.get() != 1) vrt::fail("start_detached started its sender %d times", sc.L(i).starts.get());
  };
  for (int i = 0; i < sc.n(); i++) { one(i); if (with_stop && i == 0 && vrt::chance(50)) stop.request_stop(); }
  if (with_stop) stop.request_stop();
  sc.close();
  if (ar.live.get()) vrt::fail("%d allocations leaked", ar.live.get());
  for (auto& l : sc.lv) if (l->completes.get() != l->starts.get()) vrt::fail("%s did not complete", l->name);
  vrt::observed(sc.n()); vrt::outcome("%s", with_stop ? "stop" : "plain");
}
template <int N> void start_now_n(Scene& sc, Home& h) {
  Rec w; w.name = "async_wait"; w.mode = vrt::chance(50) ? KEEP : HANDOFF;
  w.user = &sc;
  w.after = [](Rec* r) noexcept { for (auto& l : ((Scene*)r->user)->lv) if (l->completes.get() != 1) vrt::fail("async_wait completed before %s", l->name);
    for (int i = 0; i < N; i++) if (data[i] != (((Scene*)r->user)->L(i).how_done.get() != STOPPED)) vrt::fail("async_wait completed but the effects of the work are not visible"); };
  auto go = [&](auto&& stg) {
    for (auto& l : sc.lv) if (l->starts.get() != 1) vrt::fail("start_now started %s %d times", l->name, l->starts.get());
    mon::connect(w, stg.async_wait());
    std::thread stopper;
    if (sc.user) stopper = std::thread([&] { h.stop(); });
    if (vrt::chance(40)) std::this_thread::yield();
    w.start(); w.wait();
    if (stopper.joinable()) stopper.join();
    if (w.ch.get() != VALUE) vrt::fail("async_wait completed with %s", chname(w.ch.get()));
    w.destroy();
    // the storage may go only when the scope is empty as well
    if (vrt::chance(50)) { h.release(); h.start_waiters(0); } else { h.start_waiters(0); h.release(); }
    h.finish();
  };
  if constexpr (N == 1) go(exec::start_now(*h, quiet_leaf(sc, 0)));
  else if constexpr (N == 2) go(exec::start_now(*h, quiet_leaf(sc, 0), quiet_leaf(sc, 1)));
  else go(exec::start_now(ex::env<>{}, *h, quiet_leaf(sc, 0), quiet_leaf(sc, 1), quiet_leaf(sc, 2)));
}
VRT_SCENARIO_F(start_now, 0, 10) {
  int n = vrt::range(1, 3); Scene sc(n, 70); Home h(sc);
  int dummy; if (vrt::chance(40)) { sc.user = &dummy; for (int i = 0; i < n; i++) if (vrt::chance(40)) sc.never(i); }
  sc.open();
  if (n == 1) start_now_n<1>(sc, h); else if (n == 2) start_now_n<2>(sc, h); else start_now_n<3>(sc, h);
  sc.close();
  vrt::outcome("%d", n);
}
}  // namespace

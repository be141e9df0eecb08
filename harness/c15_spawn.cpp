// C15: spawn, spawn_future and associate against counting scopes.
#include "mon.hpp"
using namespace mon;

namespace {
struct AllocEnv {
  Arena* a;
  [[nodiscard]] auto query(ex::get_allocator_t) const noexcept { return Alloc<>(a); }
};
// a scope with a join that destroys it as soon as it completes
template <class Scope> struct Home {
  Scene* sc; Arena ar;
  std::unique_ptr<Scope> scope{std::make_unique<Scope>()};
  Rec join; vrt::cell<int> joined, admitted_after, close_begun, stop_begun;
  explicit Home(Scene& s) : sc(&s) {
    join.name = "join"; join.mode = (Mode)vrt::choose(3); join.user = this;
    join.after = [](Rec* r) noexcept {
      Home* h = (Home*)r->user;
      h->joined.set(1); vrt::observed();
      for (auto& l : h->sc->lv) if (l->live_ops.get()) vrt::fail("join() completed while the operation of %s is alive", l->name);
      if (h->ar.live.get()) vrt::fail("join() completed while %d allocations of spawned operations are alive", h->ar.live.get());
      h->scope.reset();                          // legal now
    };
    mon::connect(join, scope->join(), SchEnv<ex::inline_scheduler>{});
  }
  auto tok() { return scope->get_token(); }
  void close() { close_begun.set(1); scope->close(); }
  void stop() { if constexpr (requires { scope->request_stop(); }) { stop_begun.set(1); scope->request_stop(); } }
  static constexpr bool stoppable = requires(Scope& s) { s.request_stop(); };
  void finish() {
    join.finish(); expect_values(join, {});
    if (ar.live.get()) vrt::fail("%d allocations leaked", ar.live.get());
  }
};
// senders own a value, whose moves and copies may throw
auto quiet_leaf(Scene& sc, int i) { return sc.s(i) | ex::then([own = Val(1)](Val v) noexcept { v.chk("read"); own.chk("used"); }) | ex::upon_error([](auto&&) noexcept {}); }
auto own_leaf(Scene& sc, int i) { return sc.s(i) | ex::then([own = Val(1)](Val v) { own.chk("used"); return v; }); }
// completers must not be blocked by an unfinished operation, so leaves wait for their thread or for a stop request
template <class Scope> void shape(Scene& sc) { (void)sc; }

template <class Scope> void spawning() {
  Scene sc(vrt::range(1, 4)); Home<Scope> h(sc);
  bool stop = Home<Scope>::stoppable && vrt::chance(50), early_close = vrt::chance(30), two = sc.n() > 1 && vrt::chance(50);
  if (stop) for (int i = 0; i < sc.n(); i++) if (vrt::chance(40)) sc.never(i);
  sc.open();
  vrt::cell<int> spawned[8], threw[8];
  auto hold = h.tok().try_associate();            // keeps the scope alive while we spawn
  if (!hold) vrt::fail("an open scope refused an association");
  auto one = [&](int i) {
    bool before = h.close_begun.get();
    (void)before;
    if (i == 0 && vrt::chance(25)) { auto snd = quiet_leaf(sc, i); G.moves_throw = vrt::chance(60); arm(vrt::range(1, 8), 55, true); try { ex::spawn(std::move(snd), h.tok(), AllocEnv{&h.ar}); } catch (Boom const& b) { if (b.code != 55) vrt::fail("wrong exception"); threw[i].set(1); } arm(0, 0); G.moves_throw = false; if (threw[i].get()) vrt::cover("spawn threw"); }
    else if (vrt::chance(30)) ex::spawn(quiet_leaf(sc, i), h.tok());
    else ex::spawn(quiet_leaf(sc, i), h.tok(), AllocEnv{&h.ar});
    spawned[i].set(1);
    if (!sc.L(i).starts.get() && !threw[i].get() && !h.close_begun.get()) vrt::fail("spawn did not start its sender although the scope was open");
    if (threw[i].get() && sc.L(i).starts.get()) vrt::fail("spawn threw, but its sender was started");
  };
  std::thread other, stopper, closer;
  auto a1 = hold.try_associate(), a2 = hold.try_associate(), a3 = hold.try_associate();
  if (two) other = std::thread([&, a = std::move(a1)] { for (int i = 1; i < sc.n(); i += 2) one(i); });
  if (early_close) closer = std::thread([&, a = std::move(a2)] { h.close(); vrt::cover("close while spawning"); });
  if (stop) stopper = std::thread([&, a = std::move(a3)] { h.stop(); vrt::cover("stop requested on the scope"); });
  if (!two) { auto d = std::move(a1); } if (!early_close) { auto d = std::move(a2); } if (!stop) { auto d = std::move(a3); }
  bool join_first = vrt::chance(40);
  if (join_first) h.join.start();
  for (int i = 0; i < sc.n(); i += two ? 2 : 1) one(i);
  if (!join_first && vrt::chance(50)) { h.join.start(); join_first = true; }
  { auto dead = std::move(hold); }
  if (!join_first) h.join.start();
  h.finish();
  for (auto* t : {&other, &stopper, &closer}) if (t->joinable()) t->join();
  sc.close();
  int st = 0;
  for (auto& l : sc.lv) { st += l->starts.get(); if (l->starts.get() > 1) vrt::fail("%s was started %d times", l->name, l->starts.get()); if (l->starts.get() != l->completes.get()) vrt::fail("join() completed but %s did not", l->name); }
  vrt::outcome("%d of %d ran", st, sc.n()); vrt::observed(st);
}

enum Fate { CONSUME, DROP, DROP_CONNECTED, N_FATES };
template <class Scope> void future() {
  Scene sc(1, 55); Home<Scope> h(sc);
  Leaf& l = sc.L(0);
  int fate = vrt::choose(4) ? CONSUME : 1 + vrt::choose(2);
  bool scope_stop = Home<Scope>::stoppable && vrt::chance(20), closed = vrt::chance(8);
  bool will_stop = fate != CONSUME || scope_stop || sc.stop_planned();
  if (will_stop && vrt::chance(40)) sc.never(0);
  int boom = 0;
  if (vrt::chance(15)) { G.moves_throw = true; boom = 77; }
  sc.rec.name = "future";
  auto hold = h.tok().try_associate(), a3 = hold.try_associate();
  if (closed) h.close();
  bool custom = vrt::chance(60), pre = vrt::chance(50);
  sc.open();
  if (sc.stop_mode == Scene::IN_START) sc.stop_mode = Scene::THREAD;
  std::thread stopper;
  if (boom && pre) arm(vrt::range(1, 14), boom);
  auto use = [&](auto fut) {
    if (l.starts.get() > 1 || (l.starts.get() != 1 && !closed)) vrt::fail("spawn_future started its sender %d times", l.starts.get());
    if (closed && l.starts.get()) vrt::fail("spawn_future started its sender although the scope was closed");
    if (vrt::chance(50)) std::this_thread::yield();
    if (scope_stop) stopper = std::thread([&, a = std::move(a3)] { h.stop(); });
    if (fate == DROP) { auto gone = std::move(fut); vrt::cover("future dropped"); return; }
    sc.prepare(std::move(fut));
    if (boom && !pre) arm(vrt::range(1, 4), boom);
    if (fate == DROP_CONNECTED) { sc.rec.destroy(); vrt::cover("connected future dropped unstarted"); return; }
    if (sc.stop_mode == Scene::BEFORE) { sc.request_stop(); vrt::cover("stop before start"); }
    std::thread st;
    if (sc.stop_mode == Scene::THREAD) st = std::thread([&] { sc.request_stop(); vrt::cover("stop from another thread"); });
    sc.rec.start();
    if (sc.stop_mode == Scene::AFTER) { sc.request_stop(); vrt::cover("stop after start"); }
    sc.rec.wait();
    if (st.joinable()) st.join();
    if (sc.rec.mode == KEEP && vrt::chance(50)) { sc.src->request_stop(); sc.src.reset(); }
    sc.rec.destroy();
  };
  bool in_thread = vrt::chance(25);
  vrt::cell<int> threw;
  auto spawn_it = [&] { try { if (custom) use(ex::spawn_future(own_leaf(sc, 0), h.tok(), AllocEnv{&h.ar})); else use(ex::spawn_future(own_leaf(sc, 0), h.tok())); } catch (Boom const& b) { threw.set(b.code); } };
  if (in_thread) { std::thread u(spawn_it); u.join(); } else spawn_it();
  { auto dead = std::move(hold); auto d3 = std::move(a3); }
  h.join.start(); h.finish();
  if (stopper.joinable()) stopper.join();
  sc.close();
  if (threw.get()) { if (threw.get() != boom || l.starts.get()) vrt::fail("spawn_future threw although its sender was started"); vrt::outcome("threw"); return; }
  if (!closed && !l.completes.get()) vrt::fail("the scope was joined but its future's operation did not complete");
  if (fate != CONSUME) {
    if (sc.rec.count.get()) vrt::fail("a future that was never started completed");
    if (!closed && l.where == NEVER && !l.stops.get()) vrt::fail("dropping the future did not request stop");
    vrt::outcome("dropped");
    return;
  }
  int ch = sc.rec.ch.get();
  bool stopped_any = sc.stop_begun.get() || scope_stop;
  if (ch == VALUE) { if (l.how_done.get() != VALUE || closed) vrt::fail("the future delivered a value that was not produced"); expect_values(sc.rec, {l.val}); }
  else if (ch == ERROR) { if (!(boom && G.thrown.get() && sc.rec.code.get() == boom) && !(l.how_done.get() == ERROR && sc.rec.code.get() == l.val)) vrt::fail("the future delivered error %d, which nobody produced", sc.rec.code.get()); }
  else if (!closed && !(l.how_done.get() == STOPPED) && !stopped_any) vrt::fail("the future delivered stopped instead of the result %s", chname(l.how_done.get()));
  vrt::outcome("%s%s", chname(ch), closed ? " (closed)" : "");
}
// several futures of one scope, consumed by different threads through when_all
template <class Scope> void futures() {
  Scene sc(2, 70); Home<Scope> h(sc);
  auto hold = h.tok().try_associate();
  if (sc.stop_planned() || (sc.L(0).how != VALUE && sc.L(1).how == VALUE)) { int i = sc.stop_planned() ? vrt::choose(2) : 1; if (vrt::chance(50)) sc.never(i); }
  sc.open();
  if (sc.stop_mode == Scene::IN_START) sc.stop_mode = Scene::AFTER;
  auto both = ex::when_all(ex::spawn_future(own_leaf(sc, 0), h.tok(), AllocEnv{&h.ar}), ex::spawn_future(sc.s(1), h.tok(), AllocEnv{&h.ar}));
  sc.prepare(std::move(both));
  std::thread st;
  if (sc.stop_mode == Scene::BEFORE) sc.request_stop();
  if (sc.stop_mode == Scene::THREAD) st = std::thread([&] { sc.request_stop(); });
  sc.rec.start();
  if (sc.stop_mode == Scene::AFTER) sc.request_stop();
  sc.rec.wait(); if (st.joinable()) st.join();
  sc.rec.destroy();
  { auto dead = std::move(hold); }
  h.join.start(); h.finish(); sc.close();
  if (sc.rec.ch.get() == VALUE) expect_values(sc.rec, {sc.L(0).val, sc.L(1).val});
  vrt::outcome("%s", chname(sc.rec.ch.get()));
}
template <class Scope> void associated() {
  Scene sc(1, 60); Home<Scope> h(sc);
  Leaf& l = sc.L(0);
  auto hold = h.tok().try_associate(), a3 = hold.try_associate();
  int closed = vrt::chance(20) ? 1 + vrt::choose(2) : 0;   // 1: before associate, 2: after
  bool scope_stop = Home<Scope>::stoppable && vrt::chance(30), start = vrt::chance(85), copy = vrt::chance(30);
  if ((scope_stop || sc.stop_planned()) && vrt::chance(50)) sc.never(0);
  bool no_source = !sc.stop_planned() && vrt::chance(40);
  int boom = 0;
  if (vrt::chance(15)) { G.moves_throw = true; boom = 77; }
  if (closed == 1) h.close();
  bool threw = false, thrown = false;
  std::thread stopper;
  sc.open();
  {
    std::optional<decltype(ex::associate(own_leaf(sc, 0), h.tok()))> s_;
    try { auto snd = own_leaf(sc, 0); if (boom) arm(vrt::range(1, 12), boom); s_.emplace(ex::associate(std::move(snd), h.tok())); } catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); }
    if (s_) {
    auto& s = *s_;
    if (closed == 2) h.close();
    bool run_copy = false;
    auto go = [&](auto&& snd) {
      if (no_source) mon::connect(sc.rec, std::forward<decltype(snd)>(snd), TokEnv{}); else sc.prepare(std::forward<decltype(snd)>(snd));
      if (!start) { sc.rec.destroy(); return; }
      if (scope_stop) stopper = std::thread([&, a = std::move(a3)] { h.stop(); });
      std::thread st;
      if (sc.stop_mode == Scene::BEFORE || sc.stop_mode == Scene::IN_START) sc.request_stop();
      if (sc.stop_mode == Scene::THREAD) st = std::thread([&] { sc.request_stop(); });
      bool early = vrt::chance(30);
      if (early) { { auto dead = std::move(hold); } h.join.start(); }
      sc.rec.start();
      if (sc.stop_mode == Scene::AFTER) sc.request_stop();
      sc.rec.wait();
      if (st.joinable()) st.join();
      if (sc.rec.mode != KEEP) sc.rec.destroy();
      else if (!(closed == 1 || run_copy) && h.joined.get()) vrt::fail("join() completed while an associated operation state is alive");
      sc.rec.destroy();
    };
    try {
    if (copy) { auto c = s; run_copy = closed != 0; vrt::cover("associated sender copied"); if (vrt::chance(50)) go(std::move(c)); else if (vrt::chance(50)) go(c); else go(s); if (vrt::chance(50)) run_copy = true; }
    else if (vrt::chance(40)) { run_copy = closed != 0; go(s); }
    else go(std::move(s));
    } catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); if (l.starts.get()) vrt::fail("connect threw, but work was started"); threw = true; }
    } else threw = true;
    thrown = G.thrown.get(); arm(0, 0); G.moves_throw = false;
    if (no_source && Home<Scope>::stoppable && l.starts.get() && !l.stop_possible.get()) vrt::fail("the scope's stop token is not visible in the associated operation");
    // with a fresh association refused, the sender must not run
    if (closed == 1 && l.starts.get()) vrt::fail("associate ran its sender although the scope was closed");
    if (!h.joined.get() && scope_stop && stopper.joinable()) stopper.join();
  }
  { auto dead = std::move(hold); auto d3 = std::move(a3); }
  if (!h.join.started.get()) h.join.start();
  h.finish(); if (stopper.joinable()) stopper.join(); sc.close();
  if (threw) { vrt::outcome("threw"); return; }
  if (!start) { if (l.starts.get() || sc.rec.count.get()) vrt::fail("work ran although nothing was started"); vrt::outcome("unstarted"); return; }
  int ch = sc.rec.ch.get();
  if (!l.starts.get()) { if (ch != STOPPED) vrt::fail("associate without an association completed with %s", chname(ch)); if (!closed) vrt::fail("associate did not run its sender although the scope was open"); }
  else if (ch == ERROR && boom && thrown && sc.rec.code.get() == boom) vrt::cover("throw while running");
  else { if (ch != l.how_done.get()) vrt::fail("associate delivered %s instead of %s", chname(ch), chname(l.how_done.get())); if (ch == VALUE) expect_values(sc.rec, {l.val}); if (ch == ERROR) expect(sc.rec, ERROR, l.val); }
  vrt::outcome("%s%s", chname(ch), l.starts.get() ? "" : " (refused)");
  (void)boom;
}
VRT_SCENARIO_F(spawn_simple, 0, 14) { spawning<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(spawn_counting, 0, 14) { spawning<ex::counting_scope>(); }
VRT_SCENARIO_F(future_simple, 0, 20) { future<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(future_counting, 0, 20) { future<ex::counting_scope>(); }
VRT_SCENARIO_F(futures_counting, 0, 8) { futures<ex::counting_scope>(); }
VRT_SCENARIO_F(associate_simple, 0, 10) { associated<ex::simple_counting_scope>(); }
VRT_SCENARIO_F(associate_counting, 0, 14) { associated<ex::counting_scope>(); }
}  // namespace

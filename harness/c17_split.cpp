// C17: exec::split and exec::ensure_started.
#include "mon.hpp"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
using namespace mon;

namespace {
struct AllocEnv {
  Arena* a;
  [[nodiscard]] auto query(ex::get_allocator_t) const noexcept { return Alloc<>(a); }
};
int data;                                        // plain memory written by the source, read by every consumer
auto src_leaf(Scene& sc) { data = 0; return sc.s(0) | ex::then([own = Val(1)](Val v) { own.chk("used"); data = 5; return v; }); }

enum Fate { RUN, DROP_SENDER, DROP_OP, N };
struct Cons {
  Rec rec; std::unique_ptr<ex::inplace_stop_source> src{std::make_unique<ex::inplace_stop_source>()};
  int fate = RUN, stop = 0;                      // stop: 0 never, 1 before, 2 after start, 3 from another thread
  bool thread = false, late = false, copy = true, no_token = false;
  vrt::cell<int> stop_begun, gone;
  Scene* sc;
};
// what one consumer may observe
void judge(Scene& sc, Cons& c, int boom) {
  Leaf& l = sc.L(0);
  if (c.fate != RUN) { if (c.rec.count.get()) vrt::fail("a consumer that was not started completed"); return; }
  int ch = c.rec.ch.get();
  if (ch == VALUE) { if (l.how_done.get() != VALUE) vrt::fail("a consumer got a value the source did not produce"); expect_values(c.rec, {l.val}); if (data != 5) vrt::fail("a consumer completed without the effects of the source being visible"); }
  else if (ch == ERROR) { if (!(boom && G.thrown.get() && c.rec.code.get() == boom) && !(l.how_done.get() == ERROR && c.rec.code.get() == l.val)) vrt::fail("a consumer got error %d, which nobody produced", c.rec.code.get()); }
  else if (l.how_done.get() != STOPPED && !c.stop_begun.get()) vrt::fail("a consumer that was not stopped completed with stopped although the source produced %s", chname(l.how_done.get()));
}
void run_one(Cons& c, auto snd) {
  if (c.fate == DROP_SENDER) { { auto gone = std::move(snd); } c.gone.set(1); return; }
  if (c.no_token) mon::connect(c.rec, std::move(snd), NoEnv{});
  else if constexpr (std::copy_constructible<decltype(snd)>) { if (c.copy) mon::connect(c.rec, std::as_const(snd), TokEnv{c.src->get_token()}); else mon::connect(c.rec, std::move(snd), TokEnv{c.src->get_token()}); { auto gone = std::move(snd); } }
  else mon::connect(c.rec, std::move(snd), TokEnv{c.src->get_token()});
  if (c.fate == DROP_OP) { if (vrt::chance(50)) std::this_thread::yield(); c.rec.destroy(); c.gone.set(1); return; }
  std::thread st;
  auto stop = [&c] { c.stop_begun.set(1); c.src->request_stop(); };
  if (c.stop == 1) stop();
  if (c.stop == 3) st = std::thread(stop);
  c.rec.start();
  if (c.stop == 2) stop();
  c.rec.wait();
  if (st.joinable()) st.join();
  if (c.rec.mode == KEEP && vrt::chance(60)) { c.src->request_stop(); if (vrt::chance(50)) c.src.reset(); }
  c.rec.destroy();
  c.gone.set(1);
}
template <bool Ensure> void shared() {
  Scene sc(1, 60); Leaf& l = sc.L(0); Arena ar;
  int k = Ensure ? 1 : vrt::range(1, 3);
  Cons cs[3]; int nrun = 0, nstop = 0;
  for (int i = 0; i < k; i++) {
    Cons& c = cs[i]; c.sc = &sc; c.rec.name = Ensure ? "ensure_started consumer" : i == 0 ? "split consumer 0" : i == 1 ? "split consumer 1" : "split consumer 2";
    c.rec.mode = (Mode)vrt::choose(3); c.rec.user = &c;
    int f = vrt::choose(6); c.fate = f < 4 ? RUN : f == 4 ? DROP_SENDER : DROP_OP;
    c.stop = vrt::chance(45) ? vrt::range(1, 3) : 0; c.thread = vrt::chance(60); c.copy = vrt::chance(70);
    if (!c.stop && vrt::chance(30)) c.no_token = true;
    nrun += c.fate == RUN; nstop += c.fate == RUN && c.stop;
  }
  // a source that waits for a stop request is only stopped when no consumer is left
  bool all_leave = nstop == nrun && (Ensure || nrun);
  if (all_leave && vrt::chance(60)) sc.never(0);
  int boom = 0, pre = vrt::choose(2);
  if (vrt::chance(15)) { boom = 77; G.moves_throw = true; }
  bool alloc = vrt::chance(50);
  sc.open();
  bool threw = false;
  std::thread ts[3];
  auto drive = [&](auto snd) {
    using S = decltype(snd);
    if (Ensure) { if (l.starts.get() != 1) vrt::fail("ensure_started started its source %d times", l.starts.get()); }
    else if (l.starts.get()) vrt::fail("split started its source before any consumer");
    if (boom && !pre) arm(vrt::range(1, 6), boom);
    if constexpr (Ensure) run_one(cs[0], std::move(snd));
    else {
      std::vector<std::unique_ptr<S>> mine;
      for (int i = 0; i < k; i++) mine.push_back(std::make_unique<S>(snd));
      if (vrt::chance(80)) { auto gone = std::move(snd); }
      for (int i = 0; i < k; i++) {
        Cons& c = cs[i]; S* s = mine[i].get();
        auto body = [&c, s] { run_one(c, std::move(*s)); };
        if (c.thread) ts[i] = std::thread(body); else body();
      }
      for (auto& t : ts) if (t.joinable()) t.join();
      if (vrt::chance(50)) mine.clear();
    }
  };
  if (boom && pre) arm(vrt::range(1, 10), boom);
  try {
    if constexpr (Ensure) { if (alloc) drive(exec::ensure_started(src_leaf(sc), AllocEnv{&ar})); else drive(exec::ensure_started(src_leaf(sc))); }
    else { if (alloc) drive(exec::split(src_leaf(sc), AllocEnv{&ar})); else drive(exec::split(src_leaf(sc))); }
  } catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); threw = true; if (l.starts.get()) vrt::fail("the factory threw although its source was started"); }
  for (auto& t : ts) if (t.joinable()) t.join();
  // every consumer is gone
  if (l.where == NEVER && l.starts.get() && !l.stops.get()) vrt::fail("every consumer has gone, but the source was not asked to stop");
  sc.close();
  if (ar.live.get()) vrt::fail("%d allocations leaked", ar.live.get());
  if (threw) { vrt::outcome("threw"); return; }
  if (l.starts.get() > 1) vrt::fail("the source was started %d times", l.starts.get());
  bool need = Ensure; for (int i = 0; i < k; i++) if (cs[i].fate == RUN && cs[i].stop != 1 && !cs[i].stop_begun.get()) need = true;
  if (need && !l.starts.get()) vrt::fail("the source was never started");
  if (!need && !nrun && l.starts.get()) vrt::fail("the source was started although no consumer was");
  for (int i = 0; i < k; i++) judge(sc, cs[i], boom);
  vrt::outcome("%d consumers, %s", k, l.starts.get() ? chname(l.how_done.get()) : "not started"); vrt::observed(k);
}
// consumers that start after the source has completed
VRT_SCENARIO_F(split_late, 0, 6) {
  Scene sc(1, 60); Leaf& l = sc.L(0);
  sc.open();
  Rec a, b; a.mode = (Mode)vrt::choose(3); b.mode = (Mode)vrt::choose(3); a.name = "first consumer"; b.name = "late consumer";
  {
    auto s = exec::split(src_leaf(sc));
    mon::connect(a, s, NoEnv{}); if (vrt::chance(50)) mon::connect(b, s, NoEnv{});
    a.start(); a.finish();
    if (!b.op) mon::connect(b, std::move(s), NoEnv{});
  }
  if (vrt::chance(50)) a.destroy();
  b.start();
  if (!b.done()) vrt::fail("a consumer started after the source completed was not completed at once");
  b.finish(); b.destroy(); a.destroy();
  sc.close();
  if (l.starts.get() != 1) vrt::fail("the source was started %d times", l.starts.get());
  for (Rec* r : {&a, &b}) { expect(*r, l.how_done.get(), l.val); if (r->ch.get() == VALUE) expect_values(*r, {l.val}); }
  vrt::outcome("%s", chname(l.how_done.get()));
}
// split feeding several children of one operation
VRT_SCENARIO_F(split_when_all, 0, 8) {
  Scene sc(1, 60); Leaf& l = sc.L(0);
  if (sc.stop_planned() && vrt::chance(50)) sc.never(0);
  auto s = exec::split(src_leaf(sc));
  auto both = ex::when_all(s | ex::then([](Val const& v) { return num(v) + 1; }), s | ex::then([](Val const& v) { return num(v) + 2; }));
  { auto gone = std::move(s); }
  sc.go(std::move(both));
  int ch = sc.rec.ch.get();
  if (ch == VALUE) expect_values(sc.rec, {l.val + 1, l.val + 2});
  else if (ch == ERROR) { if (l.how_done.get() != ERROR) vrt::fail("error without an error"); }
  else if (l.how_done.get() != STOPPED && !sc.stop_begun.get()) vrt::fail("stopped without a stop request");
  if (l.starts.get() > 1) vrt::fail("the source was started %d times", l.starts.get());
  vrt::outcome("%s", chname(ch));
}
VRT_SCENARIO_F(split, 0, 30) { shared<false>(); }
VRT_SCENARIO_F(ensure_started, 0, 20) { shared<true>(); }
// ensure_started of several sources consumed together
VRT_SCENARIO_F(ensure_when_all, 0, 8) {
  Scene sc(2, 60);
  if (sc.stop_planned()) { if (vrt::chance(50)) sc.never(vrt::choose(2)); }
  if (sc.stop_mode == Scene::IN_START) sc.stop_mode = Scene::AFTER;
  sc.open();
  sc.prepare(ex::when_all(exec::ensure_started(sc.s(0)), exec::ensure_started(sc.s(1))));
  std::thread st;
  if (sc.stop_mode == Scene::BEFORE) sc.request_stop();
  if (sc.stop_mode == Scene::THREAD) st = std::thread([&] { sc.request_stop(); });
  sc.rec.start();
  if (sc.stop_mode == Scene::AFTER) sc.request_stop();
  sc.rec.wait(); if (st.joinable()) st.join();
  sc.rec.destroy(); sc.close();
  int ch = sc.rec.ch.get();
  if (ch == VALUE) expect_values(sc.rec, {sc.L(0).val, sc.L(1).val});
  for (int i = 0; i < 2; i++) if (sc.L(i).starts.get() != 1) vrt::fail("ensure_started started its source %d times", sc.L(i).starts.get());
  vrt::outcome("%s", chname(ch));
}
}  // namespace

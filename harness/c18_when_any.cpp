// C18: when_any, stop_when, unless_stop_requested, fork_join.
#include "mon.hpp"
#include <exec/when_any.hpp>
#include <exec/fork_join.hpp>
#include <exec/unless_stop_requested.hpp>
using namespace mon;

namespace {
int boom = 0;
bool nested_ = false;
// what a when_any of the scene's leaves may deliver, judged inside its completion
void at_completion(Scene* sc) noexcept {
  Rec& r = sc->rec; int ns = 0;
  for (auto& l : sc->lv) {
    if (l->starts.get() > 1) vrt::fail("%s was started %d times", l->name, l->starts.get());
    if (l->starts.get() != l->completes.get()) vrt::fail("when_any completed with %s before %s completed", chname(r.ch.get()), l->name);
    ns += l->starts.get();
  }
  if (ns == 0) {
    if (!sc->stop_begun.get()) vrt::fail("when_any completed without having started its children");
    if (r.ch.get() != STOPPED) vrt::fail("when_any completed with %s although no child was started", chname(r.ch.get()));
    vrt::outcome("stopped before start"); return;
  }
  if (!nested_ && ns != sc->n()) vrt::fail("only %d of %d children were started", ns, sc->n());
  auto first = [&](int how, int code) {
    Leaf* w = nullptr;
    for (auto& l : sc->lv) if (l->starts.get() && l->how_done.get() == how && (how == STOPPED || l->val == code)) {
      bool ok = true;
      for (auto& o : sc->lv) if (!nested_ && o.get() != l.get() && o->starts.get() && o->t_end.get() && o->t_end.get() < l->t_begin.get()) ok = false;
      if (ok) { w = l.get(); break; }
      if (how != STOPPED) vrt::fail("when_any delivered the %s of %s although another child had completed before", chname(how), l->name);
    }
    return w;
  };
  bool thrown = boom && G.thrown.get();
  switch (r.ch.get()) {
    case VALUE: if (r.n.get() != 1 || !first(VALUE, r.v[0].get())) vrt::fail("when_any delivered value %d, which no child produced", r.v[0].get()); break;
    case ERROR: if (!(thrown && r.code.get() == boom) && !first(ERROR, r.code.get())) vrt::fail("when_any delivered error %d, which no child produced", r.code.get()); break;
    default: if (!sc->stop_begun.get() && !first(STOPPED, 0)) vrt::fail("when_any completed with stopped, but neither was it stopped nor the first child to complete");
  }
  if (sc->stop_mode == Scene::BEFORE && r.ch.get() != STOPPED) vrt::fail("stop was requested before the start, but the operation completed with %s", chname(r.ch.get()));
  vrt::outcome("%s of %d", chname(r.ch.get()), sc->n());
}
void shape(Scene& sc) {
  sc.check_at_completion = at_completion; boom = 0; nested_ = false;
  int k = sc.n(), keep = sc.stop_planned() ? -1 : vrt::choose(k);
  for (int i = 0; i < k; i++) if (i != keep && vrt::chance(35)) sc.never(i);
  if (vrt::chance(15)) { G.moves_throw = true; boom = 77; }
}
template <class S> void run(Scene& sc, S&& s) {
  sc.prepare((S&&)s);
  if (boom) arm(vrt::range(1, 2 * sc.n()), boom);
  sc.drive();
}
VRT_SCENARIO_F(any_one, 0, 4) { Scene sc(1); shape(sc); run(sc, exec::when_any(sc.s(0))); }
VRT_SCENARIO_F(any_two, 0, 20) { Scene sc(2); shape(sc); run(sc, exec::when_any(sc.s(0), sc.s(1))); }
VRT_SCENARIO_F(any_three, 0, 16) { Scene sc(3); shape(sc); run(sc, exec::when_any(sc.s(0), sc.s(1), sc.s(2))); }
VRT_SCENARIO_F(any_four, 0, 8) { Scene sc(4); shape(sc); run(sc, exec::when_any(sc.s(0), sc.s(1), sc.s(2), sc.s(3))); }
VRT_SCENARIO_F(any_nested, 0, 8) { Scene sc(4); shape(sc); nested_ = true; run(sc, exec::when_any(exec::when_any(sc.s(0), sc.s(1)), sc.s(2), exec::when_any(sc.s(3)))); }
VRT_SCENARIO_F(any_then, 0, 8) {
  Scene sc(2); shape(sc);
  run(sc, exec::when_any(sc.s(0) | ex::then([own = NVal(1)](Val v) { own.chk("used"); return v; }), sc.s(1) | ex::let_value([own = NVal(1)](Val& v) { own.chk("used"); return ex::just(std::move(v)); })));
}
// children completing with different types and arities
VRT_SCENARIO_F(any_mixed, 0, 8) {
  Scene sc(2); shape(sc); G.moves_throw = false; boom = 0; sc.check_at_completion = nullptr;
  sc.go(exec::when_any(sc.s(0) | ex::then([](Val v) noexcept { return v.get(); }), sc.s(1) | ex::let_value([](Val& v) { return ex::just(std::move(v), 1, 2); })));
  Leaf &a = sc.L(0), &b = sc.L(1);
  if (sc.rec.ch.get() == VALUE) {
    if (sc.rec.n.get() == 1) { if (a.how_done.get() != VALUE) vrt::fail("the value of nobody"); expect_values(sc.rec, {a.val}); }
    else { if (b.how_done.get() != VALUE) vrt::fail("the value of nobody"); expect_values(sc.rec, {b.val, 1, 2}); }
  }
  vrt::outcome("%s/%d", chname(sc.rec.ch.get()), sc.rec.n.get());
}
// the losers' side effects are over when the operation completes: plain memory, no synchronisation of ours
VRT_SCENARIO_F(any_effects, 0, 8) {
  Scene sc(3); shape(sc); static int mem[3]; mem[0] = mem[1] = mem[2] = 0; G.moves_throw = false; boom = 0;
  auto eff = [&](int i) { return sc.s(i) | ex::then([i](Val v) { mem[i]++; return v; }) | ex::upon_stopped([i] { mem[i]++; return Val(50 + i); }); };
  sc.check_at_completion = nullptr;
  sc.go(exec::when_any(eff(0), eff(1), eff(2)));
  int t = mem[0] + mem[1] + mem[2]; (void)t; mem[0] = mem[1] = mem[2] = -1;
  vrt::outcome("%s", chname(sc.rec.ch.get()));
}
VRT_SCENARIO_F(stop_when, 0, 16) {
  Scene sc(1, 60); Leaf& l = sc.L(0);
  auto extra = std::make_unique<ex::inplace_stop_source>();
  int m = vrt::choose(5);                        // the extra token: 0 never, 1 before, 2 thread, 3 after, 4 already and by two threads
  bool rtok = vrt::chance(75); if (!rtok) sc.stop_mode = Scene::NO_STOP;
  if ((m || sc.stop_planned()) && vrt::chance(60)) sc.never(0);
  vrt::cell<int> begun;
  auto stop2 = [&] { begun.set(1); extra->request_stop(); };
  sc.open(); Scene::cur = &sc;
  auto s = ex::__stop_when(sc.s(0), extra->get_token());
  if (rtok) sc.prepare(std::move(s)); else if (vrt::chance(50)) mon::connect(sc.rec, std::move(s), TokEnv{}); else mon::connect(sc.rec, std::move(s), NoEnv{});
  std::thread t1, t2;
  if (m == 1) stop2();
  if (sc.stop_mode == Scene::BEFORE) sc.request_stop();
  if (m == 2) t1 = std::thread(stop2);
  if (sc.stop_mode == Scene::THREAD) t2 = std::thread([&] { sc.request_stop(); });
  if (sc.stop_mode == Scene::IN_START) l.on_start = nullptr, sc.stop_mode = Scene::AFTER;
  sc.rec.start();
  if (m == 3 || m == 4) stop2();
  if (sc.stop_mode == Scene::AFTER) sc.request_stop();
  sc.rec.wait();
  if (t1.joinable()) t1.join();
  if (t2.joinable()) t2.join();
  if (sc.rec.mode == KEEP) { if (vrt::chance(60)) { extra->request_stop(); sc.src->request_stop(); } if (vrt::chance(60)) extra.reset(); if (vrt::chance(60)) sc.src.reset(); }
  sc.rec.destroy(); sc.close();
  if (l.starts.get() != 1) vrt::fail("the source was started %d times", l.starts.get());
  expect(sc.rec, l.how_done.get(), l.val); if (sc.rec.ch.get() == VALUE) expect_values(sc.rec, {l.val});
  if (!begun.get() && !sc.stop_begun.get() && l.stops.get()) vrt::fail("the source was asked to stop, but nobody asked");
  if (!l.stop_possible.get()) vrt::fail("the source's token cannot be stopped");
  if ((m == 1 || sc.stop_mode == Scene::BEFORE) && !l.stops.get()) vrt::fail("stop was requested before the start, but the source was not told");
  vrt::outcome("%s %s%s", chname(sc.rec.ch.get()), begun.get() ? "extra " : "", sc.stop_begun.get() ? "receiver" : "");
}
// two stop_whens around each other: any of the tokens
VRT_SCENARIO_F(stop_when_nested, 0, 8) {
  Scene sc(2, 60); ex::inplace_stop_source e1, e2;
  int which = vrt::choose(3); for (int i = 0; i < 2; i++) sc.never(i);
  sc.stop_mode = Scene::NO_STOP; sc.open();
  sc.prepare(ex::__stop_when(ex::when_all(ex::__stop_when(sc.s(0), e1.get_token()), sc.s(1)), e2.get_token()));
  std::thread t([&] { which == 0 ? e1.request_stop() : which == 1 ? e2.request_stop() : (sc.request_stop(), true); });
  if (vrt::chance(50)) e2.request_stop();
  sc.rec.start(); sc.rec.wait(); t.join(); sc.rec.destroy(); sc.close();
  expect(sc.rec, STOPPED);
}
// connected but never started: everything is released, nothing runs
VRT_SCENARIO_F(unstarted, 0, 4) {
  Scene sc(3); ex::inplace_stop_source e;
  auto drop = [&](auto s) { sc.prepare(std::move(s)); if (vrt::chance(50)) sc.request_stop(); if (vrt::chance(30)) sc.src.reset(); sc.rec.destroy(); };
  switch (vrt::choose(4)) {
    case 0: drop(exec::when_any(sc.s(0), sc.s(1), sc.s(2))); break;
    case 1: drop(ex::__stop_when(sc.s(0), e.get_token())); break;
    case 2: drop(sc.s(0) | exec::unless_stop_requested()); break;
    default: drop(exec::fork_join(sc.s(0) | ex::then([own = Val(3)](Val v) { return v; }), ex::then([own = Val(3)](auto) { }), ex::let_value([own = Val(3), &sc](auto) { return sc.s(1); })));
  }
  for (int i = 0; i < 3; i++) if (sc.L(i).starts.get()) vrt::fail("a child ran although the operation was never started");
  if (sc.rec.count.get()) vrt::fail("completed without having been started");
  sc.close();
}
VRT_SCENARIO_F(unless_stopped, 0, 8) {
  Scene sc(1, 60); Leaf& l = sc.L(0); if (sc.stop_planned() && vrt::chance(50)) sc.never(0);
  sc.go(sc.s(0) | exec::unless_stop_requested());
  if (!l.starts.get()) { if (!sc.stop_begun.get()) vrt::fail("the source was not started although nobody asked for stop"); expect(sc.rec, STOPPED); }
  else { if (sc.stop_mode == Scene::BEFORE) vrt::fail("the source was started although stop had been requested"); expect(sc.rec, l.how_done.get(), l.val); if (sc.rec.ch.get() == VALUE) expect_values(sc.rec, {l.val}); }
  vrt::outcome("%s", l.starts.get() ? chname(sc.rec.ch.get()) : "not started");
}
VRT_SCENARIO_F(fork_join, 0, 16) {
  Scene sc(3, 75); Leaf &s = sc.L(0), &a = sc.L(1), &b = sc.L(2);
  if (sc.stop_planned()) { if (vrt::chance(40)) sc.never(1); if (vrt::chance(40)) sc.never(2); }
  else if (b.how != VALUE && vrt::chance(50)) sc.never(1);
  int boomc = 0, when = 0; if (vrt::chance(20)) { boomc = 77; G.moves_throw = true; when = vrt::choose(2); }
  static Leaf* src; src = &s; static vrt::cell<int> calls; calls.set(0);
  auto chk = [] { calls.inc(); if (!src->completes.get()) vrt::fail("a fork was started before the source completed"); if (src->live_ops.get()) vrt::fail("a fork was started before the source's operation was destroyed"); };
  try {
    if (boomc && !when) arm(vrt::range(1, 12), boomc);
    auto snd = exec::fork_join(sc.s(0), ex::then([chk, own = Val(3)](auto v) { own.chk("used"); chk(); return num(v) + 1; }),
                               ex::let_value([chk, &sc](Val const& v) { chk(); return ex::when_all(ex::just(num(v) + 2), sc.s(1)); }), ex::let_value([chk, &sc](Val const&) { chk(); return sc.s(2); }));
    sc.prepare(std::move(snd));
  } catch (Boom const& x) { if (x.code != boomc) vrt::fail("wrong exception"); if (s.starts.get()) vrt::fail("the source was started by connect"); vrt::outcome("threw"); return; }
  if (boomc && when) arm(vrt::range(1, 6), boomc);
  sc.drive();
  bool thrown = boomc && G.thrown.get();
  if (s.starts.get() != 1 || !s.completes.get()) vrt::fail("the source was started %d times and completed %d times", s.starts.get(), s.completes.get());
  if (s.how_done.get() != VALUE && (calls.get() || a.starts.get() || b.starts.get())) vrt::fail("a fork ran although the source did not produce a value");
  if (a.starts.get() > 1 || b.starts.get() > 1 || calls.get() > 3) vrt::fail("a fork ran twice");
  if (a.starts.get() != a.completes.get() || b.starts.get() != b.completes.get()) vrt::fail("completed before a fork did");
  switch (sc.rec.ch.get()) {
    case VALUE: if (calls.get() != 3) vrt::fail("only %d forks ran", calls.get()); expect_values(sc.rec, {s.val + 1, s.val + 2, a.val, b.val}); break;
    case ERROR: { int c = sc.rec.code.get(); bool ok = thrown && c == boomc; for (Leaf* l : {&s, &a, &b}) ok |= l->how_done.get() == ERROR && l->val == c; if (!ok) vrt::fail("error %d, which nobody produced", c); break; }
    default: if (!sc.stop_begun.get() && s.how_done.get() != STOPPED && a.how_done.get() != STOPPED && b.how_done.get() != STOPPED) vrt::fail("stopped although nobody was");
  }
  vrt::outcome("%s", chname(sc.rec.ch.get()));
}
}  // namespace

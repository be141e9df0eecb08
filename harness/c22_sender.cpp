// C22: any_sender and its queries, against the unwrapped forms.
#include "c22.hpp"
// after the completion: what came out is what went in
static void same(Rec& r, Leaf& l) {
  if (l.starts.get() != 1) vrt::fail("the wrapped sender was started %d times", l.starts.get());
  int how = l.how_done.get();
  if (how == VALUE) expect_values(r, {l.val}); else expect(r, how, l.val);
  vrt::cover(how == VALUE ? "wrapped value" : how == ERROR ? "wrapped error" : "wrapped stopped");
}
template <class A> void shuffle(std::vector<A>& v, std::vector<int>& who) {
  for (int n = vrt::choose(6); n > 0; n--) {
    int i = vrt::choose((int)v.size()), j = vrt::choose((int)v.size());
    switch (vrt::choose(5)) {
    case 0: { A x(std::move(v[i])); v[i] = std::move(x); break; }
    case 1: { A& r = v[i]; v[i] = std::move(r); break; }
    case 2: swap(v[i], v[j]); std::swap(who[i], who[j]); break;
    case 3: { A x(std::move(v[i])); if (i != j) { v[i] = std::move(v[j]); v[j] = std::move(x); std::swap(who[i], who[j]); } else v[i] = std::move(x); break; }
    default: { A x(std::move(v[i])); A y(std::move(x)); swap(x, y); swap(x, v[i]); break; }
    }
  }
  vrt::observed();
}
template <class A> void sender_scenario(bool stop_declared, bool check_attrs) {
  Scene sc(3);
  for (int i = 0; i < 3; i++) if (stop_declared && vrt::chance(15) && sc.stop_planned()) sc.never(i);
  std::vector<A> v; std::vector<int> who; int kind[3];
  for (int i = 0; i < 3; i++) {
    kind[i] = vrt::choose(KINDS); if (sc.L(i).where == NEVER && (kind[i] == 4 || kind[i] == 6)) kind[i] = 0;
    bool ok = attempt(vrt::chance(15), "wrapping a sender threw", [&] { v.reserve(3); v.push_back(make<A>(&sc.L(i), 50 + i, kind[i])); });
    if (ok) who.push_back(i);
    if (v.size() != who.size()) vrt::fail("a failed wrapping left something behind");
  }
  if (v.empty()) return;
  shuffle(v, who);
  int pick = vrt::choose((int)v.size()); int me = who[pick];
  if constexpr (requires(A const& a) { q1(ex::get_env(a)); }) for (size_t i = 0; i < v.size(); i++) if (q1(ex::get_env(v[i])) != 50 + who[i] || q2(ex::get_env(v[i]), 3) != (50 + who[i]) * 10 + 3) vrt::fail("a query of a wrapped sender is not answered by that sender");
  A a(std::move(v[pick]));
  if (vrt::chance(50)) v.clear();
  // only the picked leaf can run
  bool inject = vrt::chance(20);
  for (int i = 0; i < 3; i++) if (i != me) { sc.L(i).where = INLINE; }
  int ref = 0; (void)check_attrs;
  bool ok = attempt(inject, "connecting a wrapped sender threw", [&] {
    if constexpr (std::is_same_v<A, AnyAll>) mon::connect(sc.rec, std::move(a), QEnv{sc.src->get_token(), 7, &ref});
    else if (!stop_declared && vrt::chance(50)) mon::connect(sc.rec, std::move(a), NoEnv{});
    else mon::connect(sc.rec, std::move(a), TokEnv{sc.src->get_token()});
  });
  if (!ok) return;
  if (vrt::chance(8)) { sc.rec.destroy(); vrt::cover("a connected operation is never started"); for (auto& l : sc.lv) if (l->live_ops.get()) vrt::fail("an operation that was never started is not released"); return; }
  if (sc.stop_mode == Scene::IN_START) sc.stop_mode = Scene::BEFORE;
  auto before = sc.stop_mode == Scene::BEFORE;
  sc.drive();
  same(sc.rec, sc.L(me));
  bool tiny = kind[me] == 4 || kind[me] == 6;
  if (stop_declared) {
    if (!sc.L(me).stop_possible.get()) vrt::fail("the receiver's stop token is declared, but the wrapped sender sees one that can never stop");
    if (before && !tiny) { if (sc.L(me).stops.get() != 1) vrt::fail("a stop request made before the start did not reach the wrapped sender"); vrt::cover("stop reached the wrapped sender"); }
    if (sc.L(me).stops.get() && !before) vrt::cover("stop reached the wrapped sender while it ran");
  }
}
VRT_SCENARIO_F(any_sender_stop, 0, 4) { sender_scenario<AnyStop>(true, false); }
VRT_SCENARIO_F(any_sender_plain, 0, 2) { sender_scenario<AnyPlain>(false, false); }
VRT_SCENARIO_F(any_sender_queries, 0, 2) { sender_scenario<AnyAll>(true, true); }
VRT_SCENARIO_F(any_sender_refs, 0, 2) { sender_scenario<AnyRef>(true, false); }

// a wrapper in a wrapper, and both within adaptors
VRT_SCENARIO_F(nested, 0, 2) {
  Scene sc(2); int me = 0;
  int k = vrt::choose(4);
  sc.L(0).in_op = vrt::chance(60);
  auto mk = [&](int i) { return AnyStop(ex::then(make<AnyRef>(&sc.L(i), 1, vrt::choose(KINDS - 2)), [t = Tracked{}](Val&& v) noexcept -> Val&& { t.chk(); return (Val&&)v; })); };
  if (k == 0) { AnyPlain a(AnyPlain(make<AnyPlain>(&sc.L(0), 1, vrt::choose(KINDS)))); sc.prepare(ex::upon_stopped(std::move(a), []() -> Val { throw Boom{-9}; })); }
  else if (k == 1) sc.prepare(mk(0));
  else if (k == 2) sc.prepare(AnyStop(ex::then(mk(0), [t = Tracked{}](Val v) { t.chk(); return v; })));
  else { sc.L(0).how = VALUE; sc.prepare(AnyStop(ex::let_value(mk(0), [&sc, &mk, t = Tracked{}](Val&) { t.chk(); return mk(1); }))); me = 1; }
  vrt::cover(k == 0 ? "wrapper in a wrapper" : k == 1 ? "wrapper of another type in a wrapper" : k == 2 ? "wrapper in an adaptor in a wrapper" : "wrapper made by an adaptor in a wrapper");
  sc.drive();
  if (k == 3 && sc.L(0).how_done.get() != VALUE) me = 0;
  if (k == 0 && sc.L(0).how_done.get() == STOPPED) { expect(sc.rec, ERROR, -9); return; }
  same(sc.rec, sc.L(me));
}

// every declared query reaches the wrapped sender, with the same arguments and results
struct Asker {
  using sender_concept = ex::sender_tag;
  using completion_signatures = Sigs;
  vrt::cell<int>* asked; int* ref; int x; ex::inplace_stop_source* src; bool big;
  template <class R, class A = Asker> struct Op {
    using operation_state_concept = ex::operation_state_tag;
    R r; A a;
    void start() & noexcept {
      auto&& e = ex::get_env(r);
      if (q1(e) != a.x) vrt::fail("a declared query returns %d through the wrapper instead of %d", q1(e), a.x);
      if (q2(e, 9) != a.x * 100 + 9) vrt::fail("a declared query with an argument returns something else through the wrapper");
      if (&q3(e) != a.ref) vrt::fail("a declared query that returns a reference returns another object through the wrapper");
      Val v(5); if (q4(e, std::move(v)) != 5 + a.x) vrt::fail("a declared query with a move-only argument returns something else through the wrapper");
      if (v.p) vrt::fail("an argument of a query was copied by the wrapper");
      if (!ex::get_stop_token(e).stop_possible()) vrt::fail("the declared stop token is lost in the wrapper");
      a.asked->inc(); vrt::observed();
      ex::set_stopped((R&&)r);
    }
  };
  template <class R> auto connect(R r) && -> Op<R> { return Op<R>{(R&&)r, *this}; }
};
VRT_SCENARIO_F(declared_queries, vrt::F_SEQ, 1) {
  Run run; Rec rec; vrt::cell<int> asked; int ref = 0, x = vrt::range(1, 50); ex::inplace_stop_source src; asked.set(0);
  exec::any_sender<exec::any_receiver<Sigs, AllQ>> a{Asker{&asked, &ref, x, &src, false}};
  if (vrt::chance(50)) { decltype(a) b(std::move(a)); swap(a, b); }
  mon::connect(rec, std::move(a), QEnv{src.get_token(), x, &ref});
  rec.start(); rec.wait();
  expect(rec, STOPPED);
  if (asked.get() != 1) vrt::fail("the queries were not asked");
  vrt::cover("declared queries asked");
}


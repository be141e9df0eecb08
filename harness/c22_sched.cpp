// C22: any_receiver(_ref) and any_scheduler against the unwrapped forms.
#include "c22.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/inline_scheduler.hpp>

// any_receiver and a reference to one: completions and queries of the wrapped receiver
using VSigs = ex::completion_signatures<ex::set_value_t(NVal), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
template <class AR> void complete(AR&& r, int ch, int val) {
  if (ch == VALUE) ex::set_value((AR&&)r, NVal(val));
  else if (ch == ERROR && val % 2) ex::set_error((AR&&)r, Err(val));
  else if (ch == ERROR) ex::set_error((AR&&)r, std::make_exception_ptr(Boom{val}));
  else ex::set_stopped((AR&&)r);
}
template <int PAD> struct BigEnv : QEnv { char pad[PAD] = {}; };
VRT_SCENARIO_F(any_receivers, vrt::F_SEQ, 1) {
  Run run; Rec rec; int ref = 0, x = vrt::range(1, 50), ch = vrt::range(1, 3), val = vrt::range(10, 13); ex::inplace_stop_source src;
  rec.mode = KEEP; rec.started.set(1);
  QEnv e{src.get_token(), x, &ref};
  using AR = exec::any_receiver<VSigs, AllQ>;
  auto ask = [&](auto const& r) {
    auto&& en = ex::get_env(r);
    if (q1(en) != x || q2(en, 2) != x * 100 + 2 || &q3(en) != &ref || ex::get_stop_token(en) != src.get_token()) vrt::fail("a query of a wrapped receiver is answered differently");
    vrt::observed();
  };
  int k = vrt::choose(4);
  if (k < 2) {
    std::optional<AR> a;
    bool ok = attempt(vrt::chance(30), "wrapping a receiver threw", [&] { if (k) a.emplace(Rcv<BigEnv<100>, VSigs>(&rec, {e})); else a.emplace(Rcv<QEnv, VSigs>(&rec, e)); });
    if (!ok) return;
    ask(*a);
    for (int n = vrt::choose(4); n > 0; n--) { AR b(std::move(*a)); if (vrt::chance(50)) swap(b, *a); else *a = std::move(b); }
    ask(*a);
    { AR b(std::move(*a)); if (vrt::chance(50)) a.reset(); ask(b); complete(std::move(b), ch, val); }
    vrt::cover(k ? "any_receiver on the heap" : "any_receiver inline");
  } else {
    Rcv<QEnv, VSigs> r(&rec, e);
    exec::_any::_any_receiver_ref<VSigs, AllQ> a(r), b(a);
    ask(b); a = b; ask(a);
    { complete(std::move(a), ch, val); vrt::cover("receiver reference"); }
  }
  if (ch == VALUE) expect_values(rec, {val}); else expect(rec, ch, val);
}

// ------------------------------------------------------------------------------------------------- any_scheduler
using ASigs = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using AnySS = exec::any_sender<exec::any_receiver<ASigs, StopQ>>;
using AnySch = exec::any_scheduler<AnySS>;
using AnySchQ = exec::any_scheduler<AnySS, exec::queries<ex::forward_progress_guarantee(ex::get_forward_progress_guarantee_t) noexcept, int(q1_t) noexcept>>;
struct SchShared { Leaf* l; vrt::cell<int> schedules; };
template <int PAD, int AL, int K> struct alignas(AL) MSch {
  using scheduler_concept = ex::scheduler_tag;
  SchShared* s; int id; Tracked tr; char pad[PAD];
  MSch(SchShared* s_, int i) : s(s_), id(i) { memset(pad, 7, PAD); }
  MSch(MSch const& o) noexcept : s((o.chk(), o.s)), id(o.id), tr(o.tr) { memcpy(pad, o.pad, PAD); }
  MSch(MSch&& o) noexcept : s((o.chk(), o.s)), id(o.id) { memcpy(pad, o.pad, PAD); }
  MSch& operator=(MSch const&) = default;
  void chk() const { tr.chk(); if ((uintptr_t)this % AL) vrt::fail("a wrapped scheduler is stored at a misaligned address"); for (char c : pad) if (c != 7) vrt::fail("a wrapped scheduler was damaged"); }
  bool operator==(MSch const& o) const noexcept { chk(); o.chk(); return id == o.id; }
  int query(q1_t) const noexcept { chk(); return id; }
  auto query(ex::get_forward_progress_guarantee_t) const noexcept { return id % 2 ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel; }
  struct Snd {
    using sender_concept = ex::sender_tag;
    using completion_signatures = ASigs;
    MSch sch;
    template <class R> struct SR {
      using receiver_concept = ex::receiver_tag;
      R r;
      void set_value(Val&&) noexcept { ex::set_value((R&&)r); }
      void set_error(Err&& e) noexcept { ex::set_error((R&&)r, std::make_exception_ptr(Boom{e.code()})); }
      void set_error(std::exception_ptr e) noexcept { ex::set_error((R&&)r, std::move(e)); }
      void set_stopped() noexcept { ex::set_stopped((R&&)r); }
      auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(r); }
    };
    template <class R> auto connect(R r) && { sch.chk(); return LeafOp<SR<R>>(SR<R>{(R&&)r}, sch.s->l); }
    auto get_env() const noexcept { struct E { MSch const* s; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return *s; } }; return E{&sch}; }
  };
  auto schedule() const { chk(); s->schedules.inc(); return Snd{*this}; }
};
using S0 = MSch<1, 8, 0>; using S1 = MSch<120, 8, 1>; using S2 = MSch<1, 32, 2>;
struct SSlot { int kind = -1, id = 0; bool operator==(SSlot const&) const = default; };
template <class AS> void fill(AS& a, int k, SchShared* s, int id) {
  if (k == 0) a = AS(S0(s, id)); else if (k == 1) a = AS(S1(s, id)); else a = AS(S2(s, id));
}
template <class AS> void scheduler_scenario(AS*) {
  Scene sc(1, 65, 50); SchShared sh{&sc.L(0), {}}; sh.schedules.set(0);
  {
    constexpr int N = 3; AS a[N]; SSlot m[N];
    for (int n = vrt::range(3, 14); n > 0; n--) {
      int i = vrt::choose(N), j = vrt::choose(N), k = vrt::choose(3), id = vrt::range(1, 3); bool inj = vrt::chance(20);
      SSlot pi = m[i], pj = m[j];
      switch (vrt::choose(8)) {
      case 0: case 1: case 2: if (attempt(inj, "wrapping a scheduler threw", [&] { fill(a[i], k, &sh, id); })) m[i] = {k, id}; break;
      case 3: if (attempt(inj, "copying a wrapped scheduler threw", [&] { a[i] = std::as_const(a[j]); })) m[i] = pj; break;
      case 4: { AS x(std::move(a[i])); a[i] = std::move(x); break; }
      case 5: if (i != j) { a[i] = std::move(a[j]); m[i] = pj; a[j] = AS(); m[j] = {}; } break;
      case 6: swap(a[i], a[j]); std::swap(m[i], m[j]); break;
      case 7: attempt(inj, "copying a wrapped scheduler threw", [&] { AS x(std::as_const(a[i])); if (!(x == a[i]) || !(a[i] == x)) vrt::fail("a copy of a wrapped scheduler differs from its original"); }); break;
      }
      (void)pi;
      vrt::observed();
      for (int x = 0; x < N; x++) for (int y = 0; y < N; y++)
        if ((a[x] == a[y]) != (m[x] == m[y])) vrt::fail("wrapped schedulers (%d,%d) and (%d,%d) compare %s", m[x].kind, m[x].id, m[y].kind, m[y].id, a[x] == a[y] ? "equal" : "different");
      if constexpr (std::is_same_v<AS, AnySchQ>) for (int x = 0; x < N; x++) if (m[x].kind >= 0) {
        if (q1(a[x]) != m[x].id || (ex::get_forward_progress_guarantee(a[x]) == ex::forward_progress_guarantee::parallel) != (m[x].id % 2)) vrt::fail("a query of a wrapped scheduler is answered differently");
      }
    }
    int i = vrt::choose(N); if (m[i].kind < 0) { fill(a[i], 0, &sh, 5); m[i] = {0, 5}; }
    if (sc.L(0).where != NEVER && sc.stop_planned() && vrt::chance(20)) sc.never(0);
    { auto s = ex::schedule(a[i]); auto c = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)); if (!(c == a[i])) vrt::fail("the completion scheduler of a wrapped scheduler's sender is another one"); }
    int before = sh.schedules.get();
    bool ok = attempt(vrt::chance(20), "scheduling on a wrapped scheduler threw", [&] {
      auto s = ex::schedule(a[i]);
      if (sh.schedules.get() != before + 1) vrt::fail("schedule() on the wrapper called schedule() on the scheduler %d times", sh.schedules.get() - before);
      sc.prepare(std::move(s));
    });
    if (!ok) return;
    vrt::cover(m[i].kind == 0 ? "scheduler inline" : m[i].kind == 1 ? "scheduler on the heap" : "over-aligned scheduler");
  }
  if (sc.stop_mode == Scene::IN_START) sc.stop_mode = Scene::BEFORE;
  sc.drive();
  int how = sc.L(0).how_done.get();
  if (how == VALUE) expect_values(sc.rec, {}); else expect(sc.rec, how, sc.L(0).val);
  if (sc.stop_mode == Scene::BEFORE && sc.L(0).stops.get() != 1) vrt::fail("a stop request made before the start did not reach the wrapped scheduler's operation");
}
VRT_SCENARIO_F(any_scheduler, 0, 2) { scheduler_scenario((AnySch*)0); }
VRT_SCENARIO_F(any_scheduler_queries, 0, 2) { scheduler_scenario((AnySchQ*)0); }

// real contexts behind an any_scheduler
VRT_SCENARIO_F(scheduler_contexts, 0, 2) {
  Run run; Rec rec[3];
  ex::run_loop loop; exec::static_thread_pool pool(1);
  AnySch l(loop.get_scheduler()), p(pool.get_scheduler()), l2(l), p2 = p, i(exec::inline_scheduler{});
  if (!(l == l2) || !(p == p2) || l == p || p == l || i == l || !(l == AnySch(loop.get_scheduler()))) vrt::fail("wrapped schedulers compare wrongly");
  std::thread th([&] { loop.run(); });
  std::atomic<int> lt{-1}, pt{-1};
  rec[0].mode = rec[1].mode = rec[2].mode = HANDOFF;
  AnySch use[3] = {vrt::chance(50) ? l : l2, vrt::chance(50) ? p : p2, i};
  int me = vrt::tid(); ex::inplace_stop_source src;
  for (int k = 0; k < 3; k++) mon::connect(rec[k], ex::starts_on(use[k], ex::just() | ex::then([] { return vrt::tid(); })) | ex::continues_on(use[(k + 1) % 2]) , TokEnv{src.get_token()});
  for (int k = 0; k < 3; k++) rec[k].start();
  for (int k = 0; k < 3; k++) rec[k].finish();
  for (int k = 0; k < 3; k++) expect(rec[k], VALUE);
  int tl = rec[0].v[0].get(), tp = rec[1].v[0].get();
  if (tl == me || tp == me || tl == tp || rec[2].v[0].get() != me) vrt::fail("work on a wrapped scheduler ran in the wrong context");
  if (rec[0].tid.get() != tp || rec[1].tid.get() != tl || rec[2].tid.get() != tp) vrt::fail("a transfer to a wrapped scheduler completed in the wrong context");
  vrt::cover("real contexts behind any_scheduler");
  loop.finish(); th.join();
}

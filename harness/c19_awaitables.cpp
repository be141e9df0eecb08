// C19: awaitables connected as senders: exactly one completion, which is what await_resume produced.
#include "coro.hpp"
using namespace mon;
namespace {
enum Stage { S_NONE, S_CONVERT, S_AWAITER, S_READY, S_SUSPEND, S_RESUME };
struct Script {
  int stage = S_NONE, how = 0;      // how: 0 ready, 1 inline, 2 other thread, 3 stopped inside suspend, 4 stopped from the other thread, 5 declined (bool false)
  int val = 0;
  std::atomic<void*> h{nullptr};
  std::coroutine_handle<> (*stop)(void*) = nullptr;
  vrt::cell<int> converted, awaiters, ready, suspended, resumed, live;
  int up(vrt::cell<int>& c) { return c.inc(); }
};
VRT_NOINSTR inline void step(Script* s, vrt::cell<int>& c, int stage, const char* what) {
  vrt::observed();
  if (c.inc() != 1) vrt::fail("%s is called twice", what);
  (void)s; (void)stage;
}
template <int Kind, class V> struct Awaiter {   // Kind: 0 void, 1 bool, 2 handle
  Script* s; Tracked t;
  explicit Awaiter(Script* p) : s(p) { step(s, s->awaiters, S_AWAITER, "the awaiter's constructor"); if (s->stage == S_AWAITER) throw Boom{41}; s->live.inc(); }
  Awaiter(Awaiter&&) = delete;
  ~Awaiter() { if (s->live.inc(-1) < 0) vrt::fail("an awaiter is destroyed twice"); }
  bool await_ready() { t.chk(); step(s, s->ready, S_READY, "await_ready"); if (s->stage == S_READY) throw Boom{42}; return s->how == 0; }
  template <class P> auto await_suspend(std::coroutine_handle<P> h) -> std::conditional_t<Kind == 0, void, std::conditional_t<Kind == 1, bool, std::coroutine_handle<>>> {
    t.chk(); Script* p = s; step(p, p->suspended, S_SUSPEND, "await_suspend");
    if (p->stage == S_SUSPEND) throw Boom{43};
    if constexpr (requires { h.promise().get_env(); }) { auto e = ex::get_env(h.promise()); (void)e; }
    p->stop = [](void* a) -> std::coroutine_handle<> { if constexpr (requires(P& q) { q.unhandled_stopped(); }) return std::coroutine_handle<P>::from_address(a).promise().unhandled_stopped(); else return std::noop_coroutine(); };
    if (p->how == 2 || p->how == 4) { p->h.store(h.address(), std::memory_order_release); p->h.notify_one(); if constexpr (Kind == 1) return true; else if constexpr (Kind == 2) return std::noop_coroutine(); else return; }
    if (p->how == 3) { auto c = p->stop(h.address()); if constexpr (Kind == 2) return c; else { c.resume(); if constexpr (Kind == 1) return true; else return; } }
    if constexpr (Kind == 0) { h.resume(); }
    else if constexpr (Kind == 1) { if (p->how == 5) return false; h.resume(); return true; }
    else return h;
  }
  V await_resume() {
    t.chk(); step(s, s->resumed, S_RESUME, "await_resume");
    if (s->stage == S_RESUME) throw Boom{44};
    if constexpr (!std::is_void_v<V>) return V(s->val);
  }
};
template <int Kind, class V> struct Direct : Awaiter<Kind, V> { using Awaiter<Kind, V>::Awaiter; };   // an awaiter, constructed by the user
template <int Kind, class V> struct PlainAwaitable {       // an awaiter that can be moved before it is awaited
  Script* s; NVal own{3}; bool awaited = false;
  explicit PlainAwaitable(Script* p) : s(p) {}
  Awaiter<Kind, V>* a = nullptr;
  PlainAwaitable(PlainAwaitable&& o) noexcept : s(o.s), own(std::move(o.own)) { if (o.a) vrt::fail("an awaiter is moved after it was used"); }
  ~PlainAwaitable() { delete a; }
  bool await_ready() { a = new Awaiter<Kind, V>(s); return a->await_ready(); }
  template <class P> auto await_suspend(std::coroutine_handle<P> h) { return a->await_suspend(h); }
  V await_resume() { own.chk("used"); return a->await_resume(); }
};
template <int Kind, class V> struct WithCoAwait {
  Script* s; NVal own{3};
  explicit WithCoAwait(Script* p) : s(p) {}
  WithCoAwait(WithCoAwait&&) = default;
  Awaiter<Kind, V> operator co_await() && { own.chk("converted"); return Awaiter<Kind, V>(s); }
};
template <int Kind, class V> struct WithFree {
  Script* s; NVal own{3};
  explicit WithFree(Script* p) : s(p) {}
  WithFree(WithFree&&) = default;
  friend Awaiter<Kind, V> operator co_await(WithFree&& w) { w.own.chk("converted"); return Awaiter<Kind, V>(w.s); }
};
template <int Kind, class V> struct WithAs {
  Script* s; NVal own{3};
  explicit WithAs(Script* p) : s(p) {}
  WithAs(WithAs&&) = default;
  template <class P> Awaiter<Kind, V> as_awaitable(P&) && { own.chk("converted"); step(s, s->converted, S_CONVERT, "as_awaitable"); if (s->stage == S_CONVERT) throw Boom{40}; return Awaiter<Kind, V>(s); }
};
template <int Kind, class V> struct WithBoth {
  Script* s; NVal own{3};
  explicit WithBoth(Script* p) : s(p) {}
  WithBoth(WithBoth&&) = default;
  template <class P> WithCoAwait<Kind, V> as_awaitable(P&) && { own.chk("converted"); step(s, s->converted, S_CONVERT, "as_awaitable"); if (s->stage == S_CONVERT) throw Boom{40}; return WithCoAwait<Kind, V>(s); }
};
struct Ctx { Script* s; Rec* r; };
VRT_NOINSTR inline void check_done(Rec* r) noexcept {
  Script& s = *static_cast<Script*>(r->user);
  if (s.how == 3 || s.how == 4) { if (r->ch.get() != STOPPED && s.stage != S_NONE && r->ch.get() == ERROR) return; if (r->ch.get() != STOPPED) vrt::fail("the awaitable was stopped, the completion is %s", chname(r->ch.get())); }
}
template <template <int, class> class A, int Kind, class V, bool As> void one() {
  Run run; Script s; Rec rec; ex::inplace_stop_source src;
  s.val = 70 + vrt::choose(9); s.how = vrt::choose(Kind == 1 ? 6 : 5);
  static constexpr int stages[] = {S_NONE, S_NONE, S_NONE, S_CONVERT, S_AWAITER, S_READY, S_SUSPEND, S_RESUME};
  s.stage = stages[vrt::choose(8)];
  if (!As && s.stage == S_CONVERT) s.stage = S_NONE;
  rec.mode = (Mode)vrt::choose(3); rec.user = &s; rec.after = check_done;
  int expect_ch = VALUE, code = 0;
  bool suspends = s.how != 0;
  if (s.stage == S_CONVERT) { expect_ch = ERROR; code = 40; }
  else if (s.stage == S_AWAITER) { expect_ch = ERROR; code = 41; }
  else if (s.stage == S_READY) { expect_ch = ERROR; code = 42; }
  else if (s.stage == S_SUSPEND && suspends) { expect_ch = ERROR; code = 43; }
  else if (s.how == 3 || s.how == 4) expect_ch = STOPPED;
  else if (s.stage == S_RESUME) { expect_ch = ERROR; code = 44; }
  bool reaches_suspend = suspends && s.stage != S_CONVERT && s.stage != S_AWAITER && s.stage != S_READY && s.stage != S_SUSPEND;
  bool adapt = vrt::chance(30);
  if (adapt) mon::connect(rec, A<Kind, V>(&s) | ex::then([own = NVal(4)](auto&&... v) noexcept { own.chk("used"); if constexpr (sizeof...(v)) return num(v...); else return 0; }), TokEnv{src.get_token()});
  else mon::connect(rec, A<Kind, V>(&s), TokEnv{src.get_token()});
  if (vrt::chance(10)) { rec.mode = KEEP; rec.destroy(); if (s.awaiters.get() && s.live.get()) vrt::fail("an awaiter of an operation that was not started is alive"); vrt::cover("connected, never started"); return; }
  std::thread t;
  if (reaches_suspend && (s.how == 2 || s.how == 4)) t = std::thread([&] {
    void* h; while (!(h = s.h.load(std::memory_order_acquire))) s.h.wait(nullptr, std::memory_order_acquire);
    if (s.how == 4) s.stop(h).resume(); else std::coroutine_handle<>::from_address(h).resume();
  });
  rec.start();
  rec.wait();
  if (t.joinable()) t.join();
  rec.destroy();
  expect(rec, expect_ch, code);
  if (expect_ch == VALUE) { if (std::is_void_v<V> && !adapt) expect_values(rec, {}); else expect_values(rec, {std::is_void_v<V> ? 0 : s.val}); }
  if (s.live.get()) vrt::fail("%d awaiters were not destroyed with the operation", s.live.get());
  if (expect_ch == VALUE && s.resumed.get() != 1) vrt::fail("await_resume was called %d times", s.resumed.get());
  if (expect_ch == STOPPED && s.resumed.get()) vrt::fail("await_resume was called although the awaitable was stopped");
  vrt::outcome("%s", chname(rec.ch.get()));
  static const char* const hows[] = {"ready", "inline", "other thread", "stopped inline", "stopped elsewhere", "declined"};
  static const char* const stg[] = {"no throw", "as_awaitable throws", "operator co_await throws", "await_ready throws", "await_suspend throws", "await_resume throws"};
  vrt::cover(hows[s.how]); vrt::cover(stg[s.stage]);
}
template <template <int, class> class A, bool As> void any_kind() {
  switch (vrt::choose(6)) {
    case 0: return one<A, 0, Val, As>(); case 1: return one<A, 1, Val, As>(); case 2: return one<A, 2, Val, As>();
    case 3: return one<A, 0, void, As>(); case 4: return one<A, 1, void, As>(); default: return one<A, 2, void, As>();
  }
}
// tasks with an environment, an allocator and error types of their own
struct AEnv {
  ex::inplace_stop_token tok; Arena* a;
  [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return tok; }
  [[nodiscard]] auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; }
  [[nodiscard]] auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; }
  [[nodiscard]] auto query(ex::get_allocator_t) const noexcept { return Alloc<std::byte>(a); }
};
struct TE2 {
  using error_types = ex::completion_signatures<ex::set_error_t(Err), ex::set_error_t(std::exception_ptr)>; using start_scheduler_type = ex::inline_scheduler; using allocator_type = Alloc<std::byte>;
};
struct Plan { int how = 0; Leaf* l = nullptr; vrt::cell<int> begun, guards, got; Arena* a = nullptr; bool nest = false; };
struct PGuard { Plan* p; explicit PGuard(Plan* q) : p(q) { p->guards.inc(); } ~PGuard() { if (p->guards.inc(-1) < 0) vrt::fail("a local is destroyed twice"); } };
using TT = ex::task<Val, TE2>;
TT prog(std::allocator_arg_t, Alloc<int>, Plan* p, Val arg) {
  PGuard g(p); p->begun.inc(); arg.chk("used");
  auto al = co_await ex::read_env(ex::get_allocator);
  if (!(al == Alloc<std::byte>(p->a))) vrt::fail("the task's environment has another allocator");
  if (p->l) {
    int fail = 0;
    try { Val v = co_await leaf_sender{p->l}; p->got.set(v.get()); if (v.get() != p->l->val || p->l->how_done.get() != VALUE) vrt::fail("a task was resumed with a value its sender did not send"); }
    catch (Boom const&) { throw; }
    catch (...) { int e = code_of(std::current_exception()); if (e != p->l->val || p->l->how_done.get() != ERROR) vrt::fail("a task was resumed with an error its sender did not send"); fail = e; }
    if (fail) { co_yield ex::with_error{Err(fail)}; vrt::fail("a coroutine continued after its final co_yield"); }
  }
  if (p->nest) { Plan q; q.a = p->a; q.how = p->how < 2 ? p->how : 0; try { Val v = co_await prog(std::allocator_arg, Alloc<int>(p->a), &q, Val(3)); if (v.get() != 91) vrt::fail("a nested task produced %d", v.get()); } catch (...) { int e = code_of(std::current_exception()); if (q.guards.get() || (e != 92 && e != 77) || (e == 92 && q.how != 1)) vrt::fail("a nested task failed with %d", e); throw; } }
  switch (p->how) {
    case 0: co_return Val(91);
    case 1: co_yield ex::with_error{Err(92)}; vrt::fail("a coroutine continued after its final co_yield"); break;
    case 2: co_yield ex::with_stopped{}; vrt::fail("a coroutine continued after its final co_yield"); break;
    case 3: co_return ex::with_error{Err(93)};
    case 4: co_return ex::with_stopped{};
    default: throw Boom{94};
  }
  co_return Val(0);
}
VRT_SCENARIO_F(own_env, 0, 8) {
  Scene w(1, 60, 40); Arena a; Plan p; p.a = &a; p.how = vrt::choose(6); if (vrt::chance(50)) p.l = &w.L(0); p.nest = vrt::chance(30);
  if (p.l && w.stop_mode != Scene::NO_STOP && vrt::chance(30)) w.never(0);
  if (!p.l && w.stop_mode == Scene::IN_START) w.stop_mode = Scene::AFTER;
  bool boom = vrt::chance(30); if (boom) arm((int)vrt::range(1, 8), 77);
  bool made = false;
  try {
    auto t = prog(std::allocator_arg, Alloc<int>(&a), &p, Val(3));
    if (vrt::chance(10)) { vrt::cover("never awaited"); }
    else { mon::connect(w.rec, std::move(t), AEnv{w.src->get_token(), &a}); made = true; }
  } catch (...) { int e = code_of(std::current_exception()); if (!boom || e != 77) vrt::fail("creating a task failed with %d", e); vrt::cover("creation failed"); }
  if (made) {
    w.drive();
    int ch = w.rec.ch.get(), code = w.rec.code.get();
    bool stop = w.stop_begun.get() != 0;
    bool inj = boom && G.thrown.get();
    if (!inj) {
      int lc = p.l ? p.l->how_done.get() : (int)VALUE;
      if (lc == ERROR) { if (ch != ERROR || code != p.l->val) vrt::fail("the task ended with %s(%d), its sender's error was %d", chname(ch), code, p.l->val); }
      else if (lc == STOPPED) { if (ch != STOPPED) vrt::fail("the task ended with %s although what it awaited was stopped", chname(ch)); }
      else { static constexpr int want[] = {VALUE, ERROR, STOPPED, ERROR, STOPPED, ERROR}, wcode[] = {0, 92, 0, 93, 0, 94}; if (ch != want[p.how] || (ch == ERROR && code != wcode[p.how])) vrt::fail("the task ended with %s(%d), not as written", chname(ch), code); if (ch == VALUE && w.rec.v[0].get() != 91) vrt::fail("the task's value is %d", w.rec.v[0].get()); }
    } else if (ch == ERROR && code != 77 && !(p.l && code == p.l->val) && (code < 92 || code > 94)) vrt::fail("an unknown error %d", code);
    (void)stop;
    vrt::outcome("%s", chname(ch));
  }
  if (!made) w.close();
  if (p.guards.get()) vrt::fail("the task's locals were never destroyed");
  if (a.live.get()) vrt::fail("%d allocations from the task's allocator were not returned", a.live.get());
  if (!made && p.begun.get()) vrt::fail("a task ran although it was never started");
}
VRT_SCENARIO_F(aw_plain, 0, 4) { any_kind<PlainAwaitable, false>(); }
VRT_SCENARIO_F(aw_member, 0, 4) { any_kind<WithCoAwait, false>(); }
VRT_SCENARIO_F(aw_free, 0, 4) { any_kind<WithFree, false>(); }
VRT_SCENARIO_F(aw_as, 0, 4) { any_kind<WithAs, true>(); }
VRT_SCENARIO_F(aw_both, 0, 4) { any_kind<WithBoth, true>(); }
}  // namespace

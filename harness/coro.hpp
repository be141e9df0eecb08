// Random coroutine programs over exec::task and stdexec::task: every frame chooses its own next step
// (await a leaf, a child task, register a clean-up action, change the scheduler, leave in some way) and
// records what it saw; monitors compare that with what the awaited operations actually did.
#pragma once
#include "mon.hpp"
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
#include <deque>
namespace coro {
using namespace mon;

// a stop token of another type than the tasks': its live callbacks are counted
struct WTok {
  ex::inplace_stop_token t; vrt::cell<int>* n;
  template <class F> struct callback_type {
    vrt::cell<int>* n; ex::inplace_stop_callback<F> cb;
    template <class G2> callback_type(WTok k, G2&& g) noexcept : n((k.n->inc(), k.n)), cb(k.t, (G2&&)g) {}
    callback_type(callback_type&&) = delete;
    ~callback_type() { n->inc(-1); }
  };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(WTok const&) const noexcept = default;
};
template <class Sch, class Tok> struct CEnv {
  Sch sch; Tok tok;
  [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return tok; }
  [[nodiscard]] auto query(ex::get_scheduler_t) const noexcept { return sch; }
  [[nodiscard]] auto query(ex::get_start_scheduler_t) const noexcept { return sch; }
};
template <class Sch> struct CEnv<Sch, void> {
  Sch sch;
  [[nodiscard]] auto query(ex::get_scheduler_t) const noexcept { return sch; }
  [[nodiscard]] auto query(ex::get_start_scheduler_t) const noexcept { return sch; }
};

struct Action { int when; bool ran = false, done = false; int leaf = -1; };   // when: 0 always, else a Ch
struct Frame {
  int id = 0, parent = -1, home = -1;
  bool exec_ = false, created = false, begun = false, ended = false, loose = false, resumed_after_end = false, moved = false;
  int ret = NONE, code = 0, guards = 0;
  int wait_leaf = -1, wait_child = -1, wait_many = 0; bool wait_self_stop = false, wait_resched = false;
  std::vector<Action> acts;
};
struct World : Scene {
  std::deque<Frame> fr; vrt::cell<int> next, budget, cbs, boom, async_actions, maxframes; bool loop = false; int home = -1, home2 = -1;
  ex::run_loop rl, rl2; ex::inline_scheduler in;
  static inline World* W = nullptr;
  World(int k, bool loop_) : Scene(k, 65, 40), loop(loop_) { W = this; next.set(0); budget.set(8); cbs.set(0); boom.set(0); async_actions.set(0); maxframes.set(7); home = vrt::tid(); }
  VRT_NOINSTR Frame& F(int i) { return fr[(size_t)i]; }
  VRT_NOINSTR int frame(int parent, bool e) { vrt::quiet q; fr.emplace_back(); Frame& f = fr.back(); f.id = (int)fr.size() - 1; f.parent = parent; f.exec_ = e; f.created = true; f.home = parent < 0 ? home : F(parent).home; return f.id; }
  bool room() { return (int)fr.size() < maxframes.get(); }
  int take() { int i = next.get(); if (i >= n()) return -1; next.set(i + 1); return i; }
  // a leaf that produces its value whatever happens
  int take_safe() { int i = take(); if (i < 0) return -1; Leaf& l = L(i); l.how = VALUE; l.onstop = IGNORE; if (l.where == NEVER) l.where = INLINE; return i; }
  bool stopping() { return stop_begun.get() != 0; }
};
#define WW (*World::W)
VRT_NOINSTR inline const char* fname(Frame& f) { static const char* n[] = {"frame 0", "frame 1", "frame 2", "frame 3", "frame 4", "frame 5", "frame 6", "frame 7", "frame 8", "frame 9"}; return n[f.id % 10]; }
VRT_NOINSTR inline void here(int id) {
  Frame& f = WW.F(id);
  if (f.ended) vrt::fail("%s runs after it ended", fname(f));
  if (WW.loop && !f.loose && vrt::tid() != f.home) vrt::fail("%s resumed on thread %d, its scheduler is thread %d", fname(f), vrt::tid(), f.home);
}
// all eligible actions of a frame that has ended have run, no others
VRT_NOINSTR inline void actions_over(Frame& f) {
  if (G.moves_throw && G.thrown.get()) return;   // a throwing move of the result changes how it ended
  int ch = f.ret ? f.ret : STOPPED;
  for (size_t i = 0; i < f.acts.size(); i++) {
    Action& a = f.acts[i]; bool el = a.when == 0 || a.when == ch;
    if (el && !a.done) vrt::fail("%s is over, but its at-exit action %zu %s", fname(f), i, a.ran ? "has not finished" : "has not run");
    if (!el && a.ran) vrt::fail("%s is over with %s, but its action for %s ran", fname(f), chname(ch), chname(a.when));
  }
}
struct Guard {
  int id, ix;
  VRT_NOINSTR explicit Guard(int i) : id(i), ix(WW.F(i).guards++) {}
  Guard(Guard const&) = delete;
  VRT_NOINSTR ~Guard() {
    Frame& f = WW.F(id);
    if (f.ended) vrt::fail("%s: a local is destroyed twice", fname(f));
    if (--f.guards != ix) vrt::fail("%s: local %d is destroyed although %d are alive", fname(f), ix, f.guards + 1);
    if (ix == 0) {
      f.ended = true;
      if (f.ret == NONE) {                       // unwound as stopped: something it waited for must have been stopped
        bool ok = f.wait_self_stop || WW.stopping() || f.wait_many || (WW.boom.get() && G.thrown.get());
        if (f.wait_leaf >= 0) ok |= WW.L(f.wait_leaf).how_done.get() == STOPPED;
        if (f.wait_child >= 0) { Frame& c = WW.F(f.wait_child); ok |= c.ret == NONE; if (c.begun && !c.ended) vrt::fail("%s is destroyed before the %s it awaited", fname(f), fname(c)); }
        if (!ok) vrt::fail("%s was unwound although nothing it awaited was stopped", fname(f));
      }
    }
  }
};
VRT_NOINSTR inline void leave(int id, int ch, int code) { Frame& f = WW.F(id); if (f.ret == NONE) { f.ret = ch; f.code = code; } }
VRT_NOINSTR inline void resumed_leaf(int id, int l, int ch, int code) {
  here(id); vrt::observed();
  Frame& f = WW.F(id); Leaf& lf = WW.L(l); f.wait_leaf = -1;
  bool injected = WW.boom.get() && ch == ERROR && code == WW.boom.get() && G.thrown.get();
  if (injected && !lf.starts.get()) return;
  if (lf.starts.get() != 1 || lf.completes.get() != 1) vrt::fail("%s resumed from %s, which was started %d times and completed %d times", fname(f), lf.name, lf.starts.get(), lf.completes.get());
  if (injected) return;
  if (lf.how_done.get() != ch || code != lf.val) vrt::fail("%s resumed from %s with %s(%d), but it completed with %s(%d)", fname(f), lf.name, chname(ch), code, chname(lf.how_done.get()), lf.val);
  if (lf.live_ops.get() > 1) vrt::fail("several operations of %s", lf.name);
}
VRT_NOINSTR inline void resumed_child(int id, int c, int ch, int code) {
  here(id); vrt::observed();
  Frame& f = WW.F(id); Frame& k = WW.F(c); f.wait_child = -1;
  bool injected = WW.boom.get() && ch == ERROR && code == WW.boom.get() && G.thrown.get();
  if (injected) return;
  if (!k.begun) vrt::fail("%s resumed from %s, which never ran", fname(f), fname(k));
  if (!k.ended) vrt::fail("%s resumed from %s, whose locals are still alive", fname(f), fname(k));
  if (k.ret != ch || k.code != code) vrt::fail("%s resumed from %s with %s(%d), but it ended with %s(%d)", fname(f), fname(k), chname(ch), code, chname(k.ret), k.code);
  actions_over(k);
}
VRT_NOINSTR inline void child_was_stopped(int id, int c) {
  here(id); Frame& f = WW.F(id); Frame& k = WW.F(c); f.wait_child = -1;
  if (k.ret != NONE && !WW.stopping()) vrt::fail("%s was told that %s was stopped, but it ended with %s", fname(f), fname(k), chname(k.ret));
  actions_over(k);
}

// completes with a value where it was started, with an error or as stopped anywhere - and says so
struct affine_value_leaf {
  using sender_concept = ex::sender_tag;
  using completion_signatures = leaf_sender::completion_signatures;
  Leaf* l;
  struct attrs { constexpr auto query(exec::get_completion_behavior_t<ex::set_value_t>) const noexcept { return exec::completion_behavior::asynchronous_affine | exec::completion_behavior::inline_completion; } };
  attrs get_env() const noexcept { return {}; }
  template <class R> auto connect(R r) const noexcept -> LeafOp<R> { return LeafOp<R>((R&&)r, l); }
};
// a sender whose connect may throw
struct throwing_leaf {
  using sender_concept = ex::sender_tag;
  using completion_signatures = leaf_sender::completion_signatures;
  Leaf* l;
  template <class R> auto connect(R r) const noexcept(false) -> LeafOp<R> { throw_point(); return LeafOp<R>((R&&)r, l); }
};
// a scheduler whose connect may throw
struct throwing_scheduler {
  using scheduler_concept = ex::scheduler_tag;
  ex::run_loop* l;
  using Base = decltype(std::declval<ex::run_loop&>().get_scheduler().schedule());
  struct Snd {
    using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    ex::run_loop* l;
    template <class R> auto connect(R r) const noexcept(false) -> ex::connect_result_t<Base, R> { throw_point(); return ex::connect(l->get_scheduler().schedule(), (R&&)r); }
    struct attrs { ex::run_loop* l; auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const&...) const noexcept { return throwing_scheduler{l}; } };
    attrs get_env() const noexcept { return {l}; }
  };
  Snd schedule() const noexcept { return {l}; }
  bool operator==(throwing_scheduler const&) const noexcept = default;
};
template <class T> inline constexpr bool is_exec = false;
template <class T, class C> inline constexpr bool is_exec<exec::basic_task<T, C>> = true;

// run when an at-exit action of frame `id` is invoked
VRT_NOINSTR inline void act_begin(int id, int ix) {
  bool odd = G.moves_throw && G.thrown.get(); G.armed.set(0);                               // a throwing clean-up action terminates: by design
  Frame& f = WW.F(id); if ((size_t)ix >= f.acts.size()) vrt::fail("%s: an at-exit action whose registration failed runs", fname(f)); Action& a = f.acts[(size_t)ix]; vrt::observed();
  if (a.ran) vrt::fail("%s: at-exit action %d runs twice", fname(f), ix);
  if (f.ret != NONE && !f.ended) vrt::fail("%s: an at-exit action runs before its locals are gone", fname(f));
  if (!odd) for (size_t j = (size_t)ix + 1; j < f.acts.size(); j++) { Action& b = f.acts[j]; int ch = f.ret ? f.ret : STOPPED; if ((b.when == 0 || b.when == ch) && !b.done) vrt::fail("%s: at-exit action %d runs before the later action %zu is over", fname(f), ix, j); }
  if (!odd && a.when && a.when != (f.ret ? f.ret : STOPPED)) vrt::fail("%s: an action for %s runs although the coroutine ended with %s", fname(f), chname(a.when), chname(f.ret ? f.ret : STOPPED));
  a.ran = true;
}
VRT_NOINSTR inline void act_end(int id, int ix) { WW.F(id).acts[(size_t)ix].done = true; }
VRT_NOINSTR inline int new_action(int id, int when, int leaf) { vrt::quiet q; Frame& f = WW.F(id); f.acts.push_back(Action{when, false, false, leaf}); return (int)f.acts.size() - 1; }
VRT_NOINSTR inline void drop_action(int id) { WW.F(id).acts.pop_back(); }
struct ActSync { int id, ix; Tracked t; auto operator()() const noexcept { act_begin(id, ix); return ex::just() | ex::then([i = id, x = ix, own = NVal(3)]() noexcept { own.chk("used"); act_end(i, x); }); } };
struct ActLeaf { int id, ix, leaf; Tracked t; auto operator()() const noexcept { act_begin(id, ix); return leaf_sender{&WW.L(leaf)} | ex::then([i = id, x = ix](Val) noexcept { act_end(i, x); }); } };
struct ActTask { int id, ix; Tracked t;
  static exec::task<void> co(int id, int ix, NVal own) { own.chk("used"); co_await ex::just(); act_end(id, ix); }
  auto operator()() const { act_begin(id, ix); return co(id, ix, NVal(5)); } };
// arguments are kept in the action's coroutine and handed back by reference
struct ActArg { int id, ix; auto operator()(NVal v) const noexcept { act_begin(id, ix); if (v.get() != 70 + ix) vrt::fail("an at-exit action was given %d instead of its argument", v.get()); act_end(id, ix); return ex::just(); } };

VRT_NOINSTR inline void begin(int id) { Frame& f = WW.F(id); if (f.begun) vrt::fail("%s: began twice", fname(f)); f.begun = true; if (f.id) here(id); vrt::observed(); }

template <class Task> Task body(int id, Val arg);
template <class Task> Task vbody(int id, Val arg);
using ET = exec::task<Val>; using EV = exec::task<void>; using ST = ex::task<Val>; using SV = ex::task<void>;

// one child, of a random kind, awaited in a random way (Self: the awaiting task type)
#define AWAIT_CHILD(TASK, EXPR_VALUE)                                                                  \
  try { EXPR_VALUE; } catch (...) { int e = code_of(std::current_exception()); resumed_child(id, c, ERROR, e); if (!caught) { leave(id, ERROR, e); throw; } }

template <class Task, bool Void> Task body_impl(int id, Val arg) {
  begin(id);
  Guard g0(id);
  if (arg.get() != 500 + id) vrt::fail("a coroutine's argument is wrong");
  Guard g1(id);
  int steps = (int)vrt::range(0, 3);
  for (int i = 0; i < steps; i++) {
    Guard gi(id);
    Val local(7);
    bool caught = vrt::chance(40);
    switch (vrt::choose(18)) {
      case 0: case 1: case 2: case 3: {          // a leaf
        int l = WW.take(); if (l < 0) break;
        WW.F(id).wait_leaf = l;
        try { Val v = co_await leaf_sender{&WW.L(l)}; resumed_leaf(id, l, VALUE, v.get()); vrt::cover("leaf value"); }
        catch (...) { int e = code_of(std::current_exception()); resumed_leaf(id, l, ERROR, e); vrt::cover("leaf error"); if (!caught) { leave(id, ERROR, e); throw; } }
        break; }
      case 4: {                                  // a leaf through an adaptor
        int l = WW.take(); if (l < 0) break;
        WW.F(id).wait_leaf = l;
        try { int v = co_await (leaf_sender{&WW.L(l)} | ex::then([own = NVal(2)](Val v) { own.chk("used"); return v.get(); })); resumed_leaf(id, l, VALUE, v); }
        catch (...) { int e = code_of(std::current_exception()); resumed_leaf(id, l, ERROR, e); if (!caught) { leave(id, ERROR, e); throw; } }
        break; }
      case 15: {                                 // a leaf that may refuse to connect, or whose errors come from elsewhere
        int l = WW.take(); if (l < 0) break;
        Leaf& lf = WW.L(l); bool aff = vrt::chance(50);
        if (aff && lf.how == VALUE && lf.where != NEVER) lf.where = INLINE;
        WW.F(id).wait_leaf = l;
        try {
          if (aff) { Val v = co_await affine_value_leaf{&lf}; resumed_leaf(id, l, VALUE, v.get()); }
          else { Val v = co_await throwing_leaf{&lf}; resumed_leaf(id, l, VALUE, v.get()); }
          vrt::cover(aff ? "affine leaf" : "throwing leaf");
        } catch (...) { int e = code_of(std::current_exception()); if (aff || e != 77 || lf.starts.get()) resumed_leaf(id, l, ERROR, e); else here(id), WW.F(id).wait_leaf = -1; vrt::cover(e == 77 ? "refused" : "affine leaf error"); if (!caught) { leave(id, ERROR, e); throw; } }
        break; }
      case 5: {                                  // synchronous senders
        int v = co_await ex::just(4); if (v != 4) vrt::fail("just(4) produced %d", v);
        co_await (ex::just() | ex::then([] {}));
        auto [a, b] = co_await ex::just(1, 2); if (a != 1 || b != 2) vrt::fail("wrong values from just");
        here(id);
        bool threw = false;
        try { co_await (ex::just() | ex::then([] { throw Boom{9}; })); } catch (Boom const& x) { threw = x.code == 9; }
        if (!threw) vrt::fail("an exception was lost by co_await");
        here(id);
        break; }
      case 6: {                                  // exec::task child
        if (!WW.room()) break;
        int c = WW.frame(id, true); WW.F(id).wait_child = c;
        AWAIT_CHILD(ET, Val v = co_await body<ET>(c, Val(500 + c)); resumed_child(id, c, VALUE, v.get()); vrt::cover("exec child"))
        break; }
      case 7: {                                  // stdexec::task child
        if (!WW.room()) break;
        if constexpr (is_exec<Task>) break;      // a stdexec::task needs an infallible scheduler
        else {
        int c = WW.frame(id, false); WW.F(id).wait_child = c;
        AWAIT_CHILD(ST, Val v = co_await body<ST>(c, Val(500 + c)); resumed_child(id, c, VALUE, v.get()); vrt::cover("stdexec child"))
        break; } }
      case 8: {                                  // void children
        if (!WW.room()) break;
        bool e = is_exec<Task> || vrt::chance(50); int c = WW.frame(id, e); WW.F(id).wait_child = c;
        AWAIT_CHILD(EV, if (e) co_await vbody<EV>(c, Val(500 + c)); else if constexpr (!is_exec<Task>) co_await vbody<SV>(c, Val(500 + c)); resumed_child(id, c, VALUE, 0); vrt::cover("void child"))
        break; }
      case 9: {                                  // a child whose being stopped is turned into a value
        if (!WW.room()) break;
        bool e = is_exec<Task> || vrt::chance(50); int c = WW.frame(id, e); WW.F(id).wait_child = c;
        AWAIT_CHILD(ET, std::optional<Val> v; if (e) v = co_await ex::stopped_as_optional(body<ET>(c, Val(500 + c))); else if constexpr (!is_exec<Task>) v = co_await ex::stopped_as_optional(body<ST>(c, Val(500 + c)));
          if (v) { resumed_child(id, c, VALUE, v->get()); } else { vrt::cover("stopped child as a value"); child_was_stopped(id, c); })
        break; }
      case 10: {                                 // a child elsewhere
        if (!WW.room()) break;
        bool e = vrt::chance(50); int c = WW.frame(id, e); WW.F(id).wait_child = c;
        if (WW.loop) WW.F(c).home = WW.home2;
        AWAIT_CHILD(ET, if (WW.loop) {
            if (e) { Val v = co_await ex::starts_on(WW.rl2.get_scheduler(), body<ET>(c, Val(500 + c))); resumed_child(id, c, VALUE, v.get()); }
            else { Val v = co_await ex::starts_on(WW.rl2.get_scheduler(), body<ST>(c, Val(500 + c))); resumed_child(id, c, VALUE, v.get()); }
            vrt::cover("child on another scheduler");
          } else { Val v = co_await body<ET>(c, Val(500 + c)); resumed_child(id, c, VALUE, v.get()); })
        break; }
      case 11: {                                 // two children at once: who sees what is only checked for consistency
        if (!WW.room()) break;
        int c = WW.frame(id, true), d = WW.frame(id, false); WW.F(id).wait_many = 1;
        bool ok = true; int e = 0, x = 0, y = 0;
        try { auto [p, q] = co_await ex::when_all(body<ET>(c, Val(500 + c)), body<std::conditional_t<is_exec<Task>, ET, ST>>(d, Val(500 + d))); x = p.get(); y = q.get(); }
        catch (...) { ok = false; e = code_of(std::current_exception()); }
        here(id); WW.F(id).wait_many = 0;
        { Frame &k = WW.F(c), &m = WW.F(d);
          if (ok) { if (k.ret != VALUE || m.ret != VALUE || k.code != x || m.code != y) vrt::fail("%s resumed with values its children did not return", fname(WW.F(id))); }
          else if (!(WW.boom.get() && G.thrown.get()) && !(k.ret == ERROR && k.code == e) && !(m.ret == ERROR && m.code == e)) vrt::fail("%s resumed with an error its children did not throw", fname(WW.F(id)));
          if ((k.begun && !k.ended && k.ret) || (m.begun && !m.ended && m.ret)) vrt::fail("%s resumed while its children are alive", fname(WW.F(id)));
          actions_over(k); actions_over(m); }
        vrt::cover("two children");
        if (!ok && !caught) { leave(id, ERROR, e); throw Boom{e}; }
        break; }
      case 12: {                                 // created and dropped
        if (!WW.room()) break;
        int c = WW.frame(id, true);
        { auto t = body<ET>(c, Val(500 + c)); auto t2 = std::move(t); if (vrt::chance(30)) { auto t3 = ex::starts_on(WW.in, std::move(t2)); (void)t3; } }
        if (WW.F(c).begun) vrt::fail("a task ran although it was never awaited");
        if constexpr (is_exec<Task>) { auto a1 = exec::at_coroutine_exit(ActSync{id, 99, {}}); auto a2 = exec::on_coroutine_succeeded(ActSync{id, 99, {}}); auto a3 = std::move(a1); auto a4 = std::move(a2); }
        break; }
      case 13: case 14: {                        // clean-up actions
        if (WW.F(id).acts.size() >= 4) break;
        if constexpr (is_exec<Task>) {
          size_t had = WW.F(id).acts.size();
          try { switch (vrt::choose(6)) {
            case 0: { int ix = new_action(id, 0, -1); co_await exec::at_coroutine_exit(ActSync{id, ix, {}}); break; }
            case 1: { int l = WW.take_safe(); if (l < 0) break; WW.async_actions.set(1); int ix = new_action(id, 0, l); co_await exec::at_coroutine_exit(ActLeaf{id, ix, l, {}}); vrt::cover("asynchronous action"); break; }
            case 2: { int ix = new_action(id, 0, -1); auto [v] = co_await exec::at_coroutine_exit(ActArg{id, ix}, NVal(70 + ix)); if (v.get() != 70 + ix) vrt::fail("the argument handed back by at_coroutine_exit is wrong"); break; }
            case 3: { int ix = new_action(id, VALUE, -1); co_await exec::on_coroutine_succeeded(ActSync{id, ix, {}}); break; }
            case 4: { int ix = new_action(id, ERROR, -1); co_await exec::on_coroutine_failed(ActSync{id, ix, {}}); break; }
            default: { int ix = new_action(id, STOPPED, -1); if (vrt::chance(50)) co_await exec::on_coroutine_stopped(ActSync{id, ix, {}}); else co_await exec::on_coroutine_stopped(ActTask{id, ix, {}}); break; }
          } } catch (...) {                          // not registered
            here(id); while (WW.F(id).acts.size() > had) drop_action(id);
            int e = code_of(std::current_exception()); if (e != 77) vrt::fail("unexpected error from at_coroutine_exit"); leave(id, ERROR, e); throw;
          }
          here(id);
        }
        break; }
      default: {                                 // change the scheduler
        if constexpr (is_exec<Task>) if (WW.loop && vrt::chance(70)) {
          if (vrt::chance(30)) {                  // may refuse: then nothing has changed
            int old = WW.F(id).home, nw = old == WW.home2 ? WW.home : WW.home2; WW.F(id).home = nw;
            try { co_await exec::reschedule_coroutine_on(throwing_scheduler{nw == WW.home ? &WW.rl : &WW.rl2}); WW.F(id).moved = true; here(id); vrt::cover("rescheduled"); }
            catch (...) { WW.F(id).home = old; here(id); vrt::cover("reschedule refused"); int e = code_of(std::current_exception()); if (e != 77) vrt::fail("unexpected error from reschedule_coroutine_on"); if (!caught) { leave(id, ERROR, e); throw; } }
            break;
          }
          WW.F(id).home = vrt::chance(80) ? (WW.F(id).home == WW.home2 ? WW.home : WW.home2) : WW.F(id).home; WW.F(id).moved = true;
          co_await exec::reschedule_coroutine_on(WW.F(id).home == WW.home ? WW.rl.get_scheduler() : WW.rl2.get_scheduler());
          here(id); vrt::cover("rescheduled");
        }
        break; }
    }
    local.chk("still used"); here(id);
  }
  arg.chk("still used");
  switch (vrt::choose(10)) {
    case 0: leave(id, ERROR, 900 + id); throw Boom{900 + id};
    case 1: WW.F(id).wait_self_stop = true; co_await ex::just_stopped(); vrt::fail("a coroutine continued after it awaited just_stopped()"); break;
    case 2: if constexpr (!is_exec<Task>) { if (vrt::chance(50)) { leave(id, ERROR, 900 + id); co_yield ex::with_error{std::make_exception_ptr(Boom{900 + id})}; } else { WW.F(id).wait_self_stop = true; co_yield ex::with_stopped{}; } vrt::fail("a coroutine continued after its final co_yield"); } break;
    default: break;
  }
  if constexpr (Void) { leave(id, VALUE, 0); co_return; }
  else {
    if constexpr (!is_exec<Task>) if (vrt::chance(10)) {
      if (vrt::chance(50)) { leave(id, ERROR, 910 + id); co_return ex::with_error{std::make_exception_ptr(Boom{910 + id})}; }
      WW.F(id).wait_self_stop = true; co_return ex::with_stopped{};
    }
    leave(id, VALUE, 600 + id); co_return Val(600 + id);
  }
}
template <class Task> Task body(int id, Val arg) { return body_impl<Task, false>(id, std::move(arg)); }
template <class Task> Task vbody(int id, Val arg) { return body_impl<Task, true>(id, std::move(arg)); }

// judged inside the completion of the root
VRT_NOINSTR inline void root_done(Scene* sc) noexcept {
  World& w = *static_cast<World*>(sc); Rec& r = w.rec; Frame& f = w.F(0);
  if (w.cbs.get()) vrt::fail("the task completed, but %d stop callbacks are still registered with its receiver's token", w.cbs.get());
  bool injected = w.boom.get() && G.thrown.get() && r.ch.get() == ERROR && r.code.get() == w.boom.get();
  if (injected) { if (w.loop) w.rl.finish(); return; }
  switch (r.ch.get()) {
    case STOPPED: if (f.ret != NONE && !w.stopping()) vrt::fail("the task completed with stopped, but ended with %s", chname(f.ret)); break;
    case VALUE: if (f.ret != VALUE || (r.n.get() && r.v[0].get() != f.code)) vrt::fail("the task completed with value %d, but ended with %s(%d)", r.v[0].get(), chname(f.ret), f.code); break;
    default: if (f.ret != ERROR || f.code != r.code.get()) vrt::fail("the task completed with error %d, but ended with %s(%d)", r.code.get(), chname(f.ret), f.code);
  }
  if (r.ch.get() != STOPPED && !f.ended) vrt::fail("the task completed while its locals are alive");
  if (f.begun) actions_over(f);
  if (r.ch.get() != STOPPED && w.loop && !w.async_actions.get() && !f.loose && vrt::tid() != w.home) vrt::fail("the task completed on thread %d, its scheduler is thread %d", vrt::tid(), w.home);
  if (w.loop) w.rl.finish();
}

template <class S, class Env> void go(World& w, S&& s, Env env) {
  w.check_at_completion = root_done;
  std::thread t2;
  std::atomic<int> up{0};
  if (w.loop) { t2 = std::thread([&] { w.home2 = vrt::tid(); up.store(1, std::memory_order_release); up.notify_one(); w.rl2.run(); }); up.wait(0, std::memory_order_acquire); }
  mon::connect(w.rec, (S&&)s, std::move(env));
  w.open(); Scene::cur = &w;
  std::thread st;
  if (w.stop_mode == Scene::IN_START) { w.stop_mode = Scene::AFTER; w.L(vrt::choose(w.n())).on_start = [](Leaf*, ex::inplace_stop_token) { if (!WW.stop_begun.get()) { WW.request_stop(); vrt::cover("stop from within a child's start"); } }; }
  if (w.stop_mode == Scene::BEFORE) w.request_stop();
  if (w.stop_mode == Scene::THREAD) st = std::thread([&] { w.request_stop(); });
  if (vrt::chance(35)) { w.boom.set(77); if (!w.loop && vrt::chance(60)) G.moves_throw = true;  /* a throwing copy in a transfer may surface where it happened */ arm((int)vrt::range(1, 16), 77); }
  w.rec.start();
  if (w.stop_mode == Scene::AFTER && !w.stop_begun.get()) w.request_stop();
  if (w.loop) w.rl.run();
  w.rec.wait();
  if (st.joinable()) st.join();
  if (w.rec.mode == KEEP && vrt::chance(70)) { if (w.loop) {} w.src->request_stop(); if (vrt::chance(50)) w.src.reset(); }
  w.rec.destroy();
  if (w.loop) { w.rl2.finish(); t2.join(); }
  w.close();
  for (auto& f : w.fr) {
    if (f.begun && !f.ended) vrt::fail("%s: its locals were never destroyed", fname(f));
    if (f.begun) actions_over(f);
  }
  vrt::outcome("%s, %d frames", chname(w.rec.ch.get()), (int)w.fr.size());
}
}  // namespace coro

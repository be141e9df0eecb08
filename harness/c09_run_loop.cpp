// C09: run_loop and sync_wait.
#include "mon.hpp"
using namespace mon;

namespace {
struct Item { Rec rec; int prod = 0, idx = 0; struct LoopW* w = nullptr; ex::inplace_stop_source* src = nullptr; int data = 0; Item* child = nullptr; bool last = false; };
struct LoopW {
  std::unique_ptr<ex::run_loop> loop{new ex::run_loop};
  std::vector<std::unique_ptr<Item>> items;
  vrt::cell<int> next[8], runner, finish_by_item, executed, started_total, finish_called, inside;
};
void item_ran(Rec* r) noexcept {
  Item* it = (Item*)r->user; LoopW& w = *it->w;
  if (vrt::tid() != w.runner.get()) vrt::fail("item ran on thread %d; run() is on thread %d", vrt::tid(), w.runner.get());
  if (w.inside.inc() != 1) vrt::fail("item ran inside another item");
  w.executed.inc();
  if (it->idx != w.next[it->prod].get()) vrt::fail("producer %d: item %d ran when item %d was next", it->prod, it->idx, w.next[it->prod].get());
  w.next[it->prod].inc();
  if (it->data != 500 + it->idx) vrt::fail("what the producer wrote before scheduling is not visible to the item");
  if (it->child) { Item* c = it->child; c->data = 500 + c->idx; c->rec.start(); vrt::cover("scheduled from inside run()"); }
  if (it->last) w.loop->finish();
  w.inside.inc(-1);
}
Item* mk(LoopW& w, int p, int i, Mode m) {
  vrt::quiet q;
  w.items.push_back(std::make_unique<Item>());
  Item* it = w.items.back().get();
  it->prod = p; it->idx = i; it->w = &w; it->rec.user = it; it->rec.after = item_ran; it->rec.mode = m; it->rec.name = "scheduled item";
  return it;
}
// finisher: 0 a producer after everything was started; 1 main before run() (prefill); 2 the last item; 3 a separate thread, racing; 4 two threads at once
void loop(int P, int finisher) {
  Run run;
  {
    LoopW w;
    auto sch = w.loop->get_scheduler();
    std::vector<Item*> per[8];
    std::vector<std::unique_ptr<ex::inplace_stop_source>> srcs;
    int total = 0, kids = 0;
    for (int p = 0; p < P; p++) {
      int k = vrt::range(1, 3);
      for (int i = 0; i < k; i++) {
        Item* it = mk(w, p, i, vrt::chance(50) ? SELF : HANDOFF);
        if (vrt::chance(20)) { srcs.push_back(std::make_unique<ex::inplace_stop_source>()); it->src = srcs.back().get(); }
        connect(it->rec, ex::schedule(sch), TokEnv{it->src ? it->src->get_token() : ex::inplace_stop_token{}});
        per[p].push_back(it); total++;
        if (kids < 2 && vrt::chance(25)) {         // an item that schedules another one (own sequence, producer 4+kids)
          Item* c = mk(w, 4 + kids, 0, SELF); connect(c->rec, ex::schedule(sch), TokEnv{}); it->child = c; kids++; total++;
        }
      }
    }
    vrt::describe("producers=%d items=%d children=%d finisher=%d", P, total, kids, finisher);
    std::atomic<int> started{0};
    auto fin = [&] { w.finish_called.set(1); w.loop->finish(); };
    auto produce = [&](int p) {
      for (Item* it : per[p]) {
        it->data = 500 + it->idx;
        if (it->src && vrt::chance(50)) { it->src->request_stop(); it->rec.stop_before_start.set(1); }
        it->rec.start();
        if (it->src && vrt::chance(50)) it->src->request_stop(), vrt::cover("stop after start");
      }
      if (started.fetch_add(1, std::memory_order_acq_rel) + 1 == P && finisher == 0) fin();
    };
    w.runner.set(vrt::tid());
    std::vector<std::thread> ts;
    if (finisher == 1) { for (int p = 0; p < P; p++) produce(p); fin(); }
    else if (finisher == 2) {
      // one designated producer finishes from inside its last item; everybody else is started before that
      for (int p = 0; p + 1 < P; p++) produce(p);
      per[P - 1].back()->last = true;
      ts.emplace_back([&] { produce(P - 1); });
    } else {
      for (int p = 0; p < P; p++) ts.emplace_back([&, p] { produce(p); });
      if (finisher >= 3) for (int j = 0; j < finisher - 2; j++) ts.emplace_back([&] { while (started.load(std::memory_order_acquire) != P) std::this_thread::yield(); fin(); });
    }
    // another thread releases handed-off operations as soon as their completion is visible
    std::thread reap([&] { for (auto& it : w.items) if (it->rec.mode == HANDOFF) it->rec.finish(); });
    w.loop->run();
    for (auto& it : w.items) if (it->rec.started.get() && !it->rec.done()) vrt::fail("run() returned although item %d of producer %d, scheduled before finish(), has not run", it->idx, it->prod);
    if (finisher != 2 && !w.finish_called.get()) vrt::fail("run() returned before finish() was called");
    // as sync_wait does: once run() has returned the loop may go, whoever called finish()
    if (finisher != 4 && vrt::chance(50)) { vrt::cover("loop destroyed as soon as run() returned"); w.loop.reset(); }
    for (auto& t : ts) t.join();
    reap.join();
    w.loop.reset();
    for (auto& it : w.items) {
      Rec& r = it->rec;
      if (!r.done()) vrt::fail("item was never run");
      if (!it->src ? r.ch.get() != VALUE : r.ch.get() == ERROR) vrt::fail("item completed with %s", chname(r.ch.get()));
      if (it->src && r.stop_before_start.get() && r.ch.get() != STOPPED) vrt::fail("item whose stop was requested before the start completed with %s", chname(r.ch.get()));
    }
    vrt::outcome("items=%d", total);
  }
}
// --- sync_wait ---------------------------------------------------------------------------------
__attribute__((noinline)) int wait_leaf(Leaf& l, int& code) {
  try {
    auto r = ex::sync_wait(leaf_sender{&l});
    if (!l.completes.get()) vrt::fail("sync_wait returned before its sender completed");
    if (!r) return STOPPED;
    code = std::get<0>(*r).get();
    return VALUE;
  } catch (Err const& e) { code = e.code(); return ERROR; } catch (Boom const& b) { code = b.code; return ERROR; }
}
void sync(int waits) {
  Run run;
  Completer c[2];
  std::vector<std::unique_ptr<Leaf>> ls;
  int n = vrt::range(1, waits);
  for (int i = 0; i < 2; i++) c[i].open();
  for (int i = 0; i < n; i++) {
    ls.push_back(std::make_unique<Leaf>());
    Leaf& l = *ls.back();
    l.how = vrt::range(VALUE, STOPPED); l.val = 10 + i * 3 + vrt::choose(3); l.where = vrt::chance(80) ? EXTERN : INLINE; l.by = &c[vrt::choose(2)];
    int code = 0;
    int ch = wait_leaf(l, code);
    stack_gone(3000);
    if (ch != l.how || (ch != STOPPED && code != l.val)) vrt::fail("sync_wait returned %s(%d) for a sender that completed with %s(%d)", chname(ch), code, chname(l.how), l.val);
    vrt::observed();
    vrt::outcome("%s", chname(ch));
  }
}
struct mixed {                     // every kind of completion sync_wait distinguishes
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(std::error_code), ex::set_error_t(Err), ex::set_error_t(int), ex::set_stopped_t()>;
  int kind, x;
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; int kind, x; void start() & noexcept {
    switch (kind) { case 0: ex::set_error((R&&)r, std::make_error_code(std::errc::invalid_argument)); break; case 1: ex::set_error((R&&)r, Err(x)); break; case 2: ex::set_error((R&&)r, (int)x); break; case 3: ex::set_stopped((R&&)r); break; default: ex::set_value((R&&)r, (int)x); } } };
  template <class R> op<R> connect(R r) const { return {(R&&)r, kind, x}; }
};
// work scheduled back to the waiting thread while it waits
__attribute__((noinline)) void delegate(Completer& c, Leaf& l, int hops) {
  int me = vrt::tid(), ran = 0;
  auto back = [&](auto sch) {
    return ex::continues_on(leaf_sender{&l}, sch) | ex::then([&](Val v) { ran++; if (vrt::tid() != me) vrt::fail("work sent to the delegation scheduler ran on thread %d, sync_wait is on %d", vrt::tid(), me); return v.get() + 1; });
  };
  auto snd = ex::let_value(ex::read_env(ex::get_delegation_scheduler), back);
  (void)c; (void)hops;
  try {
    auto r = ex::sync_wait(std::move(snd));
    if (l.how == VALUE) { if (!r || std::get<0>(*r) != l.val + 1 || ran != 1) vrt::fail("sync_wait lost work scheduled on its own loop"); }
    else if (l.how == STOPPED) { if (r || ran) vrt::fail("stopped sender: result %d, function ran %d times", r.has_value(), ran); }
    else vrt::fail("an error was dropped by sync_wait");
  } catch (Err const& e) { if (l.how != ERROR || e.code() != l.val) vrt::fail("wrong error"); }
  catch (Boom const& e) { if (l.how != ERROR || e.code != l.val) vrt::fail("wrong exception"); }
}
}  // namespace

VRT_SCENARIO_F(c09_loop1, 0, 10) { loop(1, vrt::choose(5)); }
VRT_SCENARIO_F(c09_loop2, 0, 20) { loop(2, vrt::choose(5)); }
VRT_SCENARIO_F(c09_loop3, 0, 20) { loop(3, vrt::choose(5)); }
VRT_SCENARIO_F(c09_sync_wait, 0, 20) { sync(3); }
VRT_SCENARIO_F(c09_delegation, 0, 20) {
  Run run;
  Completer c; c.open();
  Leaf l; l.by = &c; l.how = vrt::range(VALUE, STOPPED); l.val = 20 + vrt::choose(4); l.where = vrt::chance(80) ? EXTERN : INLINE;
  delegate(c, l, 1);
  stack_gone(4000);
  vrt::observed(); vrt::outcome("%s", chname(l.how));
}
// several threads wait on their own senders which all hop through one shared run_loop
VRT_SCENARIO_F(c09_shared_loop, 0, 15) {
  Run run;
  {
    ex::run_loop loop;
    int n = vrt::range(1, 3), host = vrt::choose(2);
    std::atomic<int> left{n};
    std::vector<std::thread> ts;
    vrt::cell<int> runner; runner.set(host ? -1 : vrt::tid());
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
      int v = -1;
      auto r = ex::sync_wait(ex::schedule(loop.get_scheduler()) | ex::then([&] { v = vrt::tid(); return Val(40 + i); }));
      if (!r || std::get<0>(*r).get() != 40 + i) vrt::fail("wrong result from sync_wait");
      if (v != runner.get()) vrt::fail("ran on thread %d instead of the run_loop's thread %d", v, runner.get());
      vrt::observed();
      if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) loop.finish();
    });
    if (host) { std::thread h([&] { runner.set(vrt::tid()); loop.run(); }); h.join(); }
    else loop.run();
    for (auto& t : ts) t.join();
  }
}
// the conversions sync_wait promises for errors and several values
VRT_SCENARIO_F(c09_sync_results, vrt::F_SEQ, 6) {
  Run run;
  int x = vrt::choose(1000);
  auto r = ex::sync_wait(ex::just(Val(x), x + 1, Val(x + 2)));
  if (!r || std::get<0>(*r).get() != x || std::get<1>(*r) != x + 1 || std::get<2>(*r).get() != x + 2) vrt::fail("sync_wait(just(a,b,c)) returned different values");
  try { ex::sync_wait(mixed{0, x}); vrt::fail("error_code dropped"); }
  catch (std::system_error const& e) { if (e.code() != std::errc::invalid_argument) vrt::fail("error_code changed"); }
  try { ex::sync_wait(mixed{1, x}); vrt::fail("user error dropped"); } catch (Err const& e) { if (e.code() != x) vrt::fail("user error changed"); }
  try { ex::sync_wait(mixed{2, x}); vrt::fail("user error dropped"); } catch (int e) { if (e != x) vrt::fail("user error changed"); }
  try { ex::sync_wait(ex::just(x) | ex::then([](int y) -> int { throw Boom{y}; })); vrt::fail("exception dropped"); } catch (Boom const& b) { if (b.code != x) vrt::fail("exception changed"); }
  auto st = ex::sync_wait(mixed{3, x});
  if (st) vrt::fail("stopped sender: sync_wait returned a value");
  auto v = ex::sync_wait_with_variant(ex::when_all(ex::just(Val(x)), ex::just(3)));
  if (!v || std::get<0>(std::get<0>(*v)).get() != x) vrt::fail("sync_wait_with_variant changed the values");
  // a value whose copy throws while it is stored
  { Val a(x); bool thrown = false; auto s = ex::just(std::move(a)); arm(1, 77); try { auto r2 = ex::sync_wait(s); (void)r2; } catch (Boom const& b) { thrown = b.code == 77; } if (!thrown) vrt::fail("a throwing copy inside sync_wait was swallowed"); G.armed.set(0); }
  vrt::observed(8);
}

// a move or copy that throws while the result is stored comes out of sync_wait as that exception
VRT_SCENARIO_F(c09_sync_throw, vrt::F_SEQ, 4) {
  Run run;
  Leaf l; l.val = vrt::choose(100); l.how = VALUE;
  G.moves_throw = true;
  int nth = vrt::range(1, 5);
  arm(nth, 77);
  bool threw = false, got = false;
  try {
    auto s = leaf_sender{&l} | ex::then([](Val v) noexcept(false) { return v; });
    if (vrt::chance(50)) { auto r = ex::sync_wait(leaf_sender{&l}); got = true; if (!r) vrt::fail("stopped?"); }
    else { auto r = ex::sync_wait(std::move(s)); got = true; if (!r) vrt::fail("sync_wait reports stopped for a value completion whose storage threw"); }
  } catch (Boom const& b) { threw = true; if (b.code != 77) vrt::fail("wrong exception"); }
  G.armed.set(0); G.moves_throw = false;
  if (threw != (G.thrown.get() == 77)) vrt::fail("exception thrown: %d, exception seen by the caller: %d", G.thrown.get(), threw);
  if (threw == got) vrt::fail("sync_wait neither returned nor threw");
  vrt::observed();
}

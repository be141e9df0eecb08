// C21: timed_thread_scheduler and the intrusive timer heap.
#include "mon.hpp"
#include <exec/timed_thread_scheduler.hpp>
#include <algorithm>
#include <chrono>
using namespace mon;
using namespace std::chrono_literals;

namespace {
using clk = std::chrono::steady_clock;

// ------------------------------------------------------------------------------------------- heap
struct N { int key = 0, id = 0; N* p = nullptr; N* l = nullptr; N* r = nullptr; bool in = false; };
using Heap = exec::intrusive_heap<N, int, &N::key, &N::p, &N::l, &N::r>;
void heap_ops(int maxn, int keys, int ops, int ins = 5, int pop = 2) {
  vrt::quiet q;
  std::vector<N> ns(maxn);
  Heap h; int cnt = 0, popped = 0;
  for (int i = 0; i < maxn; i++) ns[i].id = i;
  auto check_top = [&] {
    N* f = h.front();
    if (!cnt) { if (f) vrt::fail("an empty heap reports a front"); return; }
    if (!f) vrt::fail("heap holding %d nodes reports no front", cnt);
    if (!f->in) vrt::fail("front of the heap is a node that is not in it");
    for (auto& n : ns) if (n.in && n.key < f->key) vrt::fail("front has key %d although %d is in the heap", f->key, n.key);
    vrt::observed();
  };
  for (int i = 0; i < ops; i++) {
    int what = vrt::choose(10);
    N& n = ns[vrt::choose(maxn)];
    if (what < ins) { if (!n.in) { n.key = vrt::choose(keys); h.insert(&n); n.in = true; cnt++; } }
    else if (what < ins + pop) { if (N* f = h.front()) { h.pop_front(); f->in = false; cnt--; popped++; } else h.pop_front(); }
    else { bool r = h.erase(&n); if (r != n.in) vrt::fail("erase of a node %s the heap returned %d", n.in ? "in" : "not in", r); if (r) { n.in = false; cnt--; } }
    check_top();
  }
  int last = -1;
  while (cnt) { check_top(); N* f = h.front(); if (f->key < last) vrt::fail("keys popped out of order"); last = f->key; h.pop_front(); f->in = false; cnt--; }
  if (h.front()) vrt::fail("more nodes popped than inserted");
  for (auto& n : ns) if (n.in) vrt::fail("a node was lost");
  vrt::outcome("popped %d", popped);
}
VRT_SCENARIO_F(heap_small, vrt::F_SEQ, 6) { heap_ops(vrt::range(1, 4), vrt::range(1, 6), vrt::range(2, 16)); }
VRT_SCENARIO_F(heap_random, vrt::F_SEQ, 8) { heap_ops(vrt::range(3, 24), vrt::chance(30) ? 4 : 100, vrt::range(10, 120)); }
VRT_SCENARIO_F(heap_large, vrt::F_SEQ, 8) { heap_ops(vrt::range(12, 40), vrt::chance(30) ? 9 : 1000, vrt::range(60, 200), vrt::range(5, 8), vrt::chance(50)); }

// ---------------------------------------------------------------------------------------- timers
struct W;
struct Timer {
  Rec rec; W* w = nullptr; int id = 0, data = 0;
  clk::time_point dl; bool far = false, after = false;
  std::unique_ptr<ex::inplace_stop_source> src;
  bool stoppable = false, src_dies = false;
  vrt::cell<int> start_tid, order, started_at, startret_at, stop_called, stop_early, fan, fired_at;
  clk::time_point done_at;
};
struct W {
  std::unique_ptr<exec::timed_thread_context> ctx;
  exec::timed_thread_context* raw = nullptr;
  std::vector<std::unique_ptr<Timer>> ts;
  clk::time_point t0;
  vrt::cell<int> clock, outsider[40], stopper_inline;
  std::atomic<int> left{0};
  bool refill = false, nobody_stops = false, closing_ok = false;
  W() { outsider[vrt::tid()].set(1); ctx = std::make_unique<exec::timed_thread_context>(); raw = &*ctx; t0 = clk::now(); }
  Timer* make(bool stoppable, int ms, bool far, bool use_after = false);
};
void fired(Rec* r) noexcept;
Timer* W::make(bool stoppable, int ms, bool far, bool use_after) {
  Timer* t;
  { vrt::quiet q; ts.push_back(std::make_unique<Timer>()); t = ts.back().get(); t->id = (int)ts.size(); t->stoppable = stoppable; if (stoppable) t->src = std::make_unique<ex::inplace_stop_source>(); }
  t->w = this; t->rec.user = t; t->rec.after = fired; t->rec.name = "timer"; t->rec.mode = vrt::chance(50) ? SELF : vrt::chance(60) ? HANDOFF : KEEP; t->far = far && ms != -99;
  left.fetch_add(1, std::memory_order_relaxed);
  auto sch = raw->get_scheduler();
  auto d = t->far ? clk::duration(1h) : clk::duration(std::chrono::milliseconds(ms));
  TokEnv e{t->src ? t->src->get_token() : ex::inplace_stop_token{}};
  if (use_after) { t->after = true; t->dl = {}; mon::connect(t->rec, exec::schedule_after(sch, d), e); }
  else if (ms == -99) { t->dl = {}; mon::connect(t->rec, ex::schedule(sch), e); }
  else { t->dl = t0 + d; mon::connect(t->rec, exec::schedule_at(sch, t->dl), e); }
  return t;
}
void start(Timer* t) {
  t->data = 700 + t->id;t->start_tid.set(vrt::tid());
  t->started_at.set(t->w->clock.inc());
  if (t->after) { vrt::quiet q; t->dl = {}; }
  t->rec.start();
  t->startret_at.set(t->w->clock.inc());
}
// requests the timer's stop; the request is made while the deadline has not passed -> it must be honoured
void stop(Timer* t) {
  bool early; { vrt::quiet q; early = t->dl != clk::time_point{} && clk::now() + 1ms < t->dl && !t->rec.done(); }
  t->stop_called.set(1);
  t->src->request_stop();
  { vrt::quiet q; early = early && clk::now() < t->dl && t->rec.started.get(); }
  if (t->src_dies) { t->rec.wait(); { vrt::quiet q; if (early && !t->rec.stop_before_start.get() && t->rec.ch.get() != STOPPED) vrt::fail("timer %d completed with %s although its stop was requested before its deadline", t->id, chname(t->rec.ch.get())); } t->src.reset(); vrt::cover("stop source destroyed after the completion"); return; }
  vrt::quiet q;
  if (early) { t->stop_early.set(1); vrt::cover("stopped while pending"); }
}
void fired(Rec* r) noexcept {
  Timer* t = (Timer*)r->user; W& w = *t->w;
  {
    vrt::quiet q;
    auto now = clk::now();
    t->fired_at.set(w.clock.inc()); t->done_at = now;
    if (r->ch.get() == ERROR) vrt::fail("timer %d completed with an error", t->id);
    if (r->ch.get() == VALUE) {
      if (now < t->dl) vrt::fail("timer %d fired %ld ns early", t->id, (long)(t->dl - now).count());
      if (w.outsider[vrt::tid()].get()) { if (!t->stoppable || !t->stop_called.get()) vrt::fail("timer %d fired on thread %d, which is not the context's", t->id, vrt::tid()); }
      if (r->stop_before_start.get()) vrt::fail("timer %d fired although its stop was requested before it started", t->id);
      if (t->stop_early.get()) vrt::fail("timer %d fired although its stop had been requested before its deadline", t->id);
      // timers submitted completely before this one, with an earlier (or the same) deadline, come first
      for (auto& o : w.ts)
        if (o.get() != t && !o->stoppable && !o->after && !t->after && o->startret_at.get() && o->startret_at.get() < t->started_at.get() && !(t->dl < o->dl) && !o->rec.done())
          vrt::fail("timer %d (deadline +%ld us) fired before timer %d (deadline +%ld us), which was submitted earlier", t->id, (long)((t->dl - w.t0).count() / 1000), o->id, (long)((o->dl - w.t0).count() / 1000));
    } else if (!t->stop_called.get() && !r->stop_before_start.get() && !w.closing_ok) vrt::fail("timer %d completed with stopped although nobody asked", t->id);
  }
  if (t->data != 700 + t->id) vrt::fail("what the submitter wrote before start is not visible when the timer completes");
  if (t->src_dies && !t->stop_called.get() && t->w->nobody_stops) { t->src.reset(); vrt::cover("stop source destroyed in the completion"); }
  if (w.refill && t->fan.get() > 0) {
    Timer* c = w.make(false, vrt::chance(30) ? -99 : (int)vrt::choose(4), w.closing_ok && vrt::chance(40));
    c->fan.set(t->fan.get() - 1);
    vrt::cover(w.closing_ok ? "restarted while (or before) closing" : "restarted from a completion");
    start(c);
  }
  w.left.fetch_sub(1, std::memory_order_acq_rel); w.left.notify_all();
}
void wait_all(W& w) { int x; while ((x = w.left.load(std::memory_order_acquire)) != 0) w.left.wait(x, std::memory_order_acquire); }
void finish(W& w, const char* when) {
  for (auto& t : w.ts) {
    if (t->rec.started.get() && !t->rec.done()) vrt::fail("%s: timer %d (%s) never completed", when, t->id, t->far ? "far away" : "near");
    if (t->stop_early.get() && t->rec.ch.get() != STOPPED) vrt::fail("timer %d completed with %s although its stop was requested before its deadline", t->id, chname(t->rec.ch.get()));
    if (t->far && t->rec.ch.get() == STOPPED && t->done_at >= t->dl) vrt::fail("timer %d was stopped, but only completed when its deadline was reached (early %d before %d on thread %d, submitted on %d)", t->id, t->stop_early.get(), t->rec.stop_before_start.get(), t->rec.tid.get(), t->start_tid.get());
  }
  for (auto& t : w.ts) { if (t->rec.started.get()) t->rec.finish(); t->rec.destroy(); }
}
// submitters on several threads; stops from another thread; everything completes
void timers(int S, int K, int stops, int fan) {
  Run run; W w;
  w.refill = fan > 0; w.nobody_stops = stops && vrt::chance(20);
  std::vector<std::vector<Timer*>> per(S); std::vector<Timer*> all;
  bool before = vrt::chance(30);
  for (int s = 0; s < S; s++) for (int k = 0; k < K; k++) {
    bool st = (int)vrt::choose(100) < stops;
    bool far = st && !w.nobody_stops && vrt::chance(50);
    int ms = vrt::chance(15) ? -99 : vrt::chance(20) ? -3 : (int)vrt::choose(5);
    Timer* t = w.make(st, ms, far);
    if (!far && fan) t->fan.set(vrt::choose(fan + 1));
    if (st && !w.nobody_stops) all.push_back(t);
    t->src_dies = st && vrt::chance(30);
    per[s].push_back(t);
    if (st && before && vrt::chance(30)) { t->rec.stop_before_start.set(1); t->src->request_stop(); vrt::cover("stopped before start"); }
  }
  std::vector<std::thread> th;
  for (int s = 0; s < S; s++) th.emplace_back([&w, &v = per[s]] {
    w.outsider[vrt::tid()].set(1);
    for (Timer* t : v) { start(t); if (vrt::chance(20)) std::this_thread::sleep_for(1ms); }
  });
  std::thread stopper;
  std::vector<Timer*> order = all;
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[vrt::choose((uint32_t)i)]);
  if (!all.empty()) stopper = std::thread([&w, &order] {
    w.outsider[vrt::tid()].set(1);
    for (Timer* t : order) {
      if (vrt::chance(20)) std::this_thread::sleep_for(std::chrono::milliseconds(vrt::choose(4)));
      if (t->far || vrt::chance(70)) stop(t);
    }
  });
  for (auto& t : th) t.join();
  if (stopper.joinable()) stopper.join();
  wait_all(w);
  if (vrt::chance(50)) w.ctx.reset();
  finish(w, "after waiting");
  int v = 0; for (auto& t : w.ts) v += t->rec.ch.get() == VALUE;
  vrt::outcome("%d of %zu fired", v, w.ts.size());
}
VRT_SCENARIO_F(timers_1, vrt::F_BIG, 6) { timers(1, vrt::range(1, 6), 0, 0); }
VRT_SCENARIO_F(timers_n, vrt::F_BIG, 10) { timers(vrt::range(2, 3), vrt::range(1, 3), 0, 2); }
VRT_SCENARIO_F(timers_stop_1, vrt::F_BIG, 16) { timers(1, vrt::range(1, 2), 100, 0); }
VRT_SCENARIO_F(timers_stop_n, vrt::F_BIG, 16) { timers(vrt::range(1, 3), vrt::range(1, 3), 60, 1); }

// the context is destroyed while timers are pending (and while their stop is being requested)
void destruction(int S, int K, bool racing_stop, int fan) {
  Run run; W w; w.closing_ok = true; w.refill = fan > 0;
  std::vector<Timer*> stoppable;
  std::vector<std::thread> th; std::vector<std::vector<Timer*>> per(S);
  for (int s = 0; s < S; s++) for (int k = 0; k < K; k++) {
    bool st = racing_stop && vrt::chance(80);
    Timer* t = w.make(st, (int)vrt::choose(3), vrt::chance(60));
    if (fan) t->fan.set(vrt::choose(fan + 1));
    per[s].push_back(t); if (st) stoppable.push_back(t);
  }
  for (int s = 1; s < S; s++) th.emplace_back([&w, &v = per[s]] { w.outsider[vrt::tid()].set(1); for (Timer* t : v) start(t); });
  for (Timer* t : per[0]) start(t);
  for (auto& t : th) t.join();
  std::thread stopper;
  if (!stoppable.empty()) stopper = std::thread([&w, &stoppable] { w.outsider[vrt::tid()].set(1); for (Timer* t : stoppable) { t->stop_called.set(1); t->src->request_stop(); } });
  w.ctx.reset();
  vrt::cover("destroyed with timers pending");
  if (!racing_stop) { vrt::quiet q; if (clk::now() - w.t0 > 30min) vrt::fail("destroying the context waited for a timer that is an hour away"); }
  if (stopper.joinable()) stopper.join();
  finish(w, "the context is gone");
  int v = 0; for (auto& t : w.ts) v += t->rec.ch.get() == VALUE;
  vrt::outcome("%d of %zu fired", v, w.ts.size());
}
VRT_SCENARIO_F(destroy, vrt::F_BIG, 12) { destruction(vrt::range(1, 2), vrt::range(1, 3), false, 2); }
VRT_SCENARIO_F(destroy_stop, vrt::F_BIG, 16) { destruction(1, vrt::range(1, 3), true, 0); }

// schedule_after: built on schedule_at and now(); relative to start
VRT_SCENARIO_F(after, vrt::F_BIG, 8) {
  Run run; W w;
  int k = vrt::range(1, 3);
  std::vector<Timer*> v; std::vector<clk::time_point> t0;
  for (int i = 0; i < k; i++) v.push_back(w.make(false, vrt::range(1, 5), false, true));
  for (Timer* t : v) { if (vrt::chance(50)) std::this_thread::sleep_for(2ms); start(t); }
  wait_all(w);
  for (Timer* t : v) expect_values(t->rec, {});
  w.ctx.reset();
  finish(w, "after");
}
// relative sleeps measured from the start of the operation
VRT_SCENARIO_F(after_delay, vrt::F_BIG, 6) {
  Run run; W w; w.closing_ok = true;
  int ms = vrt::range(1, 20);
  Rec r; r.name = "schedule_after"; r.mode = vrt::chance(50) ? SELF : HANDOFF;
  clk::time_point s;
  mon::connect(r, exec::schedule_after(w.raw->get_scheduler(), std::chrono::milliseconds(ms)));
  if (vrt::chance(50)) std::this_thread::sleep_for(3ms);
  { vrt::quiet q; s = clk::now(); }
  r.start(); r.finish(); expect_values(r, {});
  { vrt::quiet q; auto e = clk::now() - s; if (e < std::chrono::milliseconds(ms)) vrt::fail("schedule_after(%d ms) completed %ld us after it was started", ms, (long)(e.count() / 1000)); }
}
}  // namespace

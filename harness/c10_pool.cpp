// C10: static_thread_pool (schedule, nested submission, sleeping, stop/destruction, iterate on the pool).
#include "mon.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/sequence_senders.hpp>
#include <ranges>
using namespace mon;

namespace {
struct two_nodes {
  std::size_t num_nodes() const noexcept { return 2; }
  std::size_t num_cpus(int) const noexcept { return 2; }
  int bind_to_node(int) const noexcept { return 0; }
  int thread_index_to_node(std::size_t i) const noexcept { return (int)(i % 2); }
};
struct PoolW;
struct Task {
  Rec rec; PoolW* w = nullptr; int pool = 0, data = 0, id = 0, fan = 0, depth = 0; bool guaranteed = true, in_pool = false;
  std::unique_ptr<ex::inplace_stop_source> src;
};
struct PoolW {
  std::unique_ptr<exec::static_thread_pool> pool[2];
  exec::nodemask mask[2];
  exec::static_thread_pool* raw[2] = {};
  int n[2] = {0, 0}, npools = 1;
  std::vector<std::unique_ptr<Task>> tasks;
  std::vector<Task*> prepared; vrt::cell<int> next_prepared;      // connected outside, started by workers
  std::atomic<Task*> handed{nullptr}; bool hand_over = false;     // connected by a worker, started outside
  vrt::cell<int> outsider[40], owner[40], ran, live, budget;
  std::atomic<int> left{0};
  bool two_node = false;
  bool bounce = false, hop_threads = false;
  int local_kids_only = 0;
  explicit PoolW(int np = 1) : npools(np) {
    outsider[vrt::tid()].set(1);
    for (int i = 0; i < np; i++) {
      n[i] = vrt::range(1, 3);
      exec::bwos_params bp{.numBlocks = vrt::range(1, 3), .blockSize = vrt::range(1, 3)};
      bool numa = vrt::chance(25); two_node |= numa;
      if (vrt::chance(20)) bp = {};
      vrt::describe("pool%d: %d threads, %zux%zu blocks%s", i, n[i], bp.numBlocks, bp.blockSize, numa ? ", two nodes" : "");
      if (numa) pool[i] = std::make_unique<exec::static_thread_pool>(n[i], bp, exec::numa_policy{two_nodes{}});
      else pool[i] = std::make_unique<exec::static_thread_pool>(n[i], bp);
    }
    for (int i = 0; i < np; i++) raw[i] = pool[i].get();
    for (int i = 0; i < 2; i++) mask[i].set(i);
  }
  Task* make(int p, int kind, bool stoppable);
  Task* child(Task* parent);
};
void task_ran(Rec* r) noexcept;
// kind: 0 get_scheduler, 1.. on thread, 8/9 node constraint
auto sched(PoolW& w, int p, int kind) {
  auto& pl = *w.raw[p];
  if (kind >= 8) return pl.get_constrained_scheduler(&w.mask[kind - 8]);
  if (kind >= 1) return pl.get_scheduler_on_thread(kind - 1);
  return pl.get_scheduler();
}
Task* PoolW::make(int p, int kind, bool stoppable) {
  Task* t;
  { vrt::quiet q; tasks.push_back(std::make_unique<Task>()); t = tasks.back().get(); t->id = (int)tasks.size(); if (stoppable) t->src = std::make_unique<ex::inplace_stop_source>(); }
  t->w = this; t->pool = p; t->rec.user = t; t->rec.after = task_ran; t->rec.name = "pool task";
  t->rec.mode = vrt::chance(60) ? SELF : HANDOFF;
  left.fetch_add(1, std::memory_order_relaxed);
  mon::connect(t->rec, ex::schedule(sched(*this, p, kind)), TokEnv{t->src ? t->src->get_token() : ex::inplace_stop_token{}});
  return t;
}
int pick_kind(PoolW& w, int p) { return vrt::chance(70) ? 0 : vrt::chance(60) ? 1 + (int)vrt::choose(w.n[p] + 1) : 8 + (int)vrt::choose(2); }
void task_ran(Rec* r) noexcept {
  Task* t = (Task*)r->user; PoolW& w = *t->w;
  int me = vrt::tid();
  if (w.outsider[me].get()) vrt::fail("a task of the pool ran on thread %d, which is not one of the pool's workers", me);
  int o = w.owner[me].get();
  if (o && o != t->pool + 1) vrt::fail("thread %d ran tasks of two pools", me);
  w.owner[me].set(t->pool + 1);
  if (t->data != 900 + t->id) vrt::fail("what the submitter wrote before start is not visible to the task");
  w.ran.inc();
  if (!t->src ? r->ch.get() != VALUE : r->ch.get() == ERROR) vrt::fail("pool task completed with %s", chname(r->ch.get()));
  if (r->stop_before_start.get() && r->ch.get() != STOPPED) vrt::fail("the task's stop was requested before it started, yet it completed with %s", chname(r->ch.get()));
  for (int i = 0; i < t->fan; i++) {
    int p = w.bounce ? (int)vrt::choose(w.npools) : t->pool;
    Task* c = nullptr;
    if (vrt::chance(40)) { int k = w.next_prepared.inc() - 1; if (k < (int)w.prepared.size()) { c = w.prepared[k]; vrt::cover("connected outside, started by a worker"); } }
    if (!c) c = w.make(p, w.local_kids_only ? 0 : pick_kind(w, p), false);
    if (t->depth > 0) { c->depth = t->depth - 1; c->fan = vrt::choose(3); }
    c->data = 900 + c->id;
    c->in_pool = true;
    // without NUMA support the any-node mask only names node 0, so a worker of another node submits to a different worker
    if (w.local_kids_only && w.two_node) c->guaranteed = false;
    c->rec.start();
    vrt::cover("submitted from a worker");
  }
  if (w.hand_over && !t->in_pool && vrt::chance(60)) {
    Task* c = w.make(t->pool, pick_kind(w, t->pool), false);
    c->in_pool = true;
    Task* none = nullptr;
    if (w.handed.compare_exchange_strong(none, c, std::memory_order_release, std::memory_order_relaxed)) { vrt::cover("connected by a worker, started outside"); w.handed.notify_all(); }
    else { w.left.fetch_sub(1, std::memory_order_relaxed); vrt::quiet q; c->rec.destroy(); }
  }
  w.left.fetch_sub(1, std::memory_order_acq_rel); w.left.notify_all();
}
void wait_all(PoolW& w) { int x; while ((x = w.left.load(std::memory_order_acquire)) != 0) w.left.wait(x, std::memory_order_acquire); }
void all_done(PoolW& w, const char* when) {
  for (auto& t : w.tasks) if (t->rec.started.get() && t->guaranteed && !t->rec.done()) vrt::fail("%s although a task %s has not run", when, t->in_pool ? "submitted by a worker" : "submitted before");
}
void start(Task* t) {
  t->data = 900 + t->id;
  if (t->src && vrt::chance(40)) { t->src->request_stop(); t->rec.stop_before_start.set(1); }
  t->rec.start();
  if (t->src && vrt::chance(50)) { vrt::cover("stop racing with execution"); t->src->request_stop(); }
}
void wait_prepared(PoolW& w) {                     // tasks prepared but never claimed by a worker do not count
  for (;;) {
    int x = w.left.load(std::memory_order_acquire);
    int unused = std::max(0, (int)w.prepared.size() - w.next_prepared.get());
    if (x <= unused) return;
    w.left.wait(x, std::memory_order_acquire);
  }
}
// submitters from outside (and, through fan, from inside); destroy 0: wait for everything first, 1: destroy the pool right away
void submit(int S, int np, int K, int fan, int depth, int destroy) {
  Run run;
  PoolW w(np);
  w.bounce = np > 1; w.local_kids_only = destroy;
  std::vector<Task*> per[4];
  w.hand_over = !destroy && vrt::chance(40);
  if (fan) for (int i = vrt::choose(3); i--;) w.prepared.push_back(w.make(vrt::choose(np), destroy ? 0 : pick_kind(w, 0), false));
  for (int s = 0; s < S; s++) { int k = vrt::range(1, K); for (int i = 0; i < k; i++) { int p = vrt::choose(np); Task* t = w.make(p, pick_kind(w, p), vrt::chance(20)); t->fan = fan ? vrt::choose(fan + 1) : 0; t->depth = depth; per[s].push_back(t); } }
  std::vector<std::thread> ts;
  w.left.fetch_add(1);
  for (int s = 1; s < S; s++) ts.emplace_back([&, s] { w.outsider[vrt::tid()].set(1); for (Task* t : per[s]) start(t); });
  for (Task* t : per[0]) start(t);
  for (auto& t : ts) t.join();
  if (w.hand_over) for (int i = vrt::choose(8); i--;) { if (Task* c = w.handed.exchange(nullptr, std::memory_order_acquire)) { c->data = 900 + c->id; c->rec.start(); } vrt::point(); }
  Task* never = w.hand_over ? w.handed.exchange((Task*)1, std::memory_order_acquire) : nullptr;
  if (never) { never->data = 900 + never->id; never->rec.start(); }
  w.left.fetch_sub(1);
  if (!destroy) { w.left.fetch_sub(0); wait_prepared(w); vrt::observed(); }
  for (int i = 0; i < np; i++) w.pool[i].reset();
  all_done(w, "the pool was destroyed");
  for (auto& t : w.tasks) if (t->rec.done()) t->rec.finish(); else t->rec.destroy();
  vrt::outcome("tasks=%d", w.ran.get());
}
}  // namespace
VRT_SCENARIO_F(c10_outside1, vrt::F_BIG, 10) { submit(1, 1, 4, 0, 0, 0); }
VRT_SCENARIO_F(c10_outside2, vrt::F_BIG, 12) { submit(2, 1, 4, 0, 0, 0); }
VRT_SCENARIO_F(c10_nested, vrt::F_BIG, 15) { submit(1, 1, 2, 4, 1, 0); }
VRT_SCENARIO_F(c10_nested2, vrt::F_BIG, 10) { submit(2, 1, 2, 3, 1, 0); }
VRT_SCENARIO_F(c10_two_pools, vrt::F_BIG, 8) { submit(1, 2, 2, 2, 1, 0); }
VRT_SCENARIO_F(c10_destroy, vrt::F_BIG, 15) { submit(1, 1, 4, 0, 0, 1); }
VRT_SCENARIO_F(c10_destroy2, vrt::F_BIG, 10) { submit(2, 1, 3, 2, 1, 1); }
// rounds with sleeping workers in between: a lost wake-up shows as a deadlock
VRT_SCENARIO_F(c10_rounds, vrt::F_BIG, 15) {
  Run run;
  PoolW w(1);
  int rounds = vrt::range(2, 4);
  for (int r = 0; r < rounds; r++) {
    int k = vrt::range(1, 2);
    std::vector<Task*> ts;
    for (int i = 0; i < k; i++) ts.push_back(w.make(0, pick_kind(w, 0), false));
    for (Task* t : ts) start(t);
    wait_all(w);
    for (Task* t : ts) if (!t->rec.done()) vrt::fail("not done");
    vrt::observed();
  }
  w.pool[0].reset();
  for (auto& t : w.tasks) t->rec.finish();
}
// request_stop while tasks are being submitted
VRT_SCENARIO_F(c10_stop, vrt::F_BIG, 12) {
  Run run;
  {
    PoolW w(1);
    std::vector<Task*> before, racing;
    int kb = vrt::range(1, 3), kr = vrt::range(0, 2);
    for (int i = 0; i < kb; i++) { before.push_back(w.make(0, pick_kind(w, 0), false)); before.back()->fan = vrt::choose(2); }
    for (int i = 0; i < kr; i++) { racing.push_back(w.make(0, pick_kind(w, 0), false)); racing.back()->guaranteed = false; }
    w.local_kids_only = 1;
    std::thread t([&] { w.outsider[vrt::tid()].set(1); for (Task* x : racing) start(x); });
    for (Task* x : before) start(x);
    w.pool[0]->request_stop();
    if (vrt::chance(30)) w.pool[0]->request_stop();
    t.join();
    for (Task* x : before) x->rec.wait();       // must complete although nobody destroys the pool yet
    vrt::observed();
    w.pool[0].reset();
    all_done(w, "the pool was destroyed");
    for (auto& x : w.tasks) { if (!x->guaranteed && !x->rec.done()) { vrt::cover("submitted after stop, never run"); x->rec.destroy(); } else x->rec.finish(); }
    vrt::outcome("racing=%d", kr);
  }
}
// --- iterate / schedule_all ----------------------------------------------------------------------
namespace {
struct ItW {
  vrt::cell<int> seen[16], done, inflight, n, fail_at, count, stop_at;
  vrt::cell<int> next_live;
  exec::static_thread_pool* hop = nullptr;
  std::atomic<int> flag{0};
  OpBase* op = nullptr; int size = 0; int self = 0;
};
struct ItemFn : Tracked {
  ItW* w;
  explicit ItemFn(ItW* x) : w(x) {}
  void operator()(int i) const noexcept {
    chk();
    if (i < 0 || i >= w->size) vrt::fail("item %d does not exist", i);
    if (w->seen[i].inc() != 1) vrt::fail("item %d delivered twice", i);
    if (w->count.get()) vrt::fail("item %d delivered after the sequence completed", i);
    vrt::observed();
  }
};
template <bool Hop> struct SeqRcv {
  using receiver_concept = ex::receiver_tag;
  ItW* w;
  template <class Item> auto set_next(Item&& item) noexcept(false) {
    int k = w->next_live.inc();
    if (w->fail_at.get() && k == w->fail_at.get()) throw Boom{5};
    if constexpr (Hop)                         // the item is only started later, from another context
      return ex::starts_on(w->hop->get_scheduler(), ex::then((Item&&)item, ItemFn{w})) | ex::upon_stopped([]() noexcept {});
    else
      return ex::then((Item&&)item, ItemFn{w});
  }
  void set_value() noexcept { finish(VALUE, 0); }
  void set_stopped() noexcept { finish(STOPPED, 0); }
  void set_error(std::exception_ptr e) noexcept { finish(ERROR, code_of(e)); }
  auto get_env() const noexcept { return ex::env<>{}; }
  void finish(int ch, int code) noexcept {
    ItW* x = w;
    if (x->count.inc() != 1) vrt::fail("the sequence completed twice");
    x->done.set(ch);
    if (ch == VALUE) for (int i = 0; i < x->size; i++) if (x->seen[i].get() != 1) vrt::fail("the sequence completed although item %d has not been delivered", i);
    if (ch == VALUE && x->fail_at.get() && x->fail_at.get() <= x->size) vrt::fail("set_next threw, yet the sequence completed with value");
    if (ch == ERROR && (code != 5 || !x->fail_at.get())) vrt::fail("the sequence completed with an error nobody raised");
    if (ch == STOPPED) vrt::fail("the sequence completed with stopped");
    if (x->self) delete std::exchange(x->op, nullptr);
    x->flag.store(1, std::memory_order_release); x->flag.notify_all();
  }
};
template <class S, class R> struct SubOp : OpBase { exec::subscribe_result_t<S, R> op; SubOp(S&& s, R r) : op(exec::subscribe((S&&)s, r)) {} void start() noexcept override { ex::start(op); } };
template <bool Hop, class S> OpBase* sub(S&& s, ItW* w) { return new SubOp<S, SeqRcv<Hop>>((S&&)s, SeqRcv<Hop>{w}); }
void schedule_all(bool hop) {
  Run run;
  ItW w;
  PoolW p(1);
  std::optional<exec::static_thread_pool> hp; if (hop) hp.emplace(1);
  w.hop = hop ? &*hp : nullptr;
  w.size = vrt::chance(10) ? 0 : vrt::range(1, 6);
  if (vrt::chance(15)) w.fail_at.set(vrt::range(1, w.size + 1));
  w.self = vrt::chance(60);
  vrt::describe("size=%d fail_at=%d", w.size, w.fail_at.get());
  auto seq = exec::schedule_all(*p.pool[0], std::views::iota(0, w.size));
  w.op = hop ? sub<true>(std::move(seq), &w) : sub<false>(std::move(seq), &w);
  if (vrt::chance(50)) w.op->start();
  else {                          // started from one of the pool's workers
    ex::sync_wait(ex::schedule(p.pool[0]->get_scheduler()) | ex::then([&]() noexcept { w.op->start(); }));
    vrt::cover("schedule_all started on a worker");
  }
  while (!w.flag.load(std::memory_order_acquire)) w.flag.wait(0, std::memory_order_acquire);
  if (!w.self) delete w.op;
  hp.reset();
  p.pool[0].reset();
  vrt::outcome("n=%d %s", w.size, chname(w.done.get()));
}
}
VRT_SCENARIO_F(c10_schedule_all, vrt::F_BIG, 15) { schedule_all(false); }
VRT_SCENARIO_F(c10_schedule_all_async, vrt::F_BIG, 10) { schedule_all(true); }

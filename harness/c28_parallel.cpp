#ifndef PART
#define PART 0
#endif
// C28: parallel_scheduler and task_scheduler in front of replaced, hostile and default backends.
#define STDEXEC_PARALLEL_SCHEDULER_HEADER_ONLY
#if PART == 2
#define STDEXEC_TASK_SCHEDULE_OPSTATE_SIZE 160
#endif
#include "bulkmon.hpp"
#include <stdexec/__detail/__parallel_scheduler_default_impl_entry.hpp>
namespace psr = ex::parallel_scheduler_replacement;
extern "C" int vrt_hardware_concurrency;
namespace {
// ------------------------------------------------------------------------------------------------
// a backend that does everything the interface allows it to do
struct Plan { int how = VALUE, code = 0, threads = 0; bool until_stop = false, poll = false, use_alloc = false, partial = false; };
struct Chaos;
struct Job {
  Chaos* be; psr::receiver_proxy* r = nullptr; psr::bulk_item_receiver_proxy* b = nullptr; std::span<std::byte> st; std::byte pat{};
  std::vector<std::pair<std::size_t, std::size_t>> todo; std::atomic<int> left{0}; std::atomic<int> stopped{0}; int shares = 1; Plan p;
  struct on_stop { Job* j; void operator()() noexcept { j->stopped.store(1); j->stopped.notify_all(); } };
  std::optional<ex::inplace_stop_token> tok; std::optional<ex::inplace_stop_callback<on_stop>> cb;
};
struct Chaos : psr::parallel_scheduler_backend {
  Plan p, sp;                                   ; vrt::cell<int> sched, bulk, requested;
  std::mutex m; std::condition_variable cv; std::deque<std::pair<Job*, int>> q; bool quit = false; std::vector<std::thread> ts;
  std::vector<std::unique_ptr<Job>> jobs; void* want_alloc = nullptr; int alloc_used = 0; bool token_known = false, token_possible = false; ex::inplace_stop_source* src = nullptr;
  explicit Chaos(int n) { for (int i = 0; i < n; i++) ts.emplace_back([this] { run(); }); }
  ~Chaos() { close(); }
  void close() { { std::lock_guard g(m); quit = true; } cv.notify_all(); for (auto& t : ts) if (t.joinable()) t.join(); }
  void run() {
    std::unique_lock g(m);
    for (;;) {
      while (!quit && q.empty()) cv.wait(g);
      if (q.empty()) return;
      auto [j, i] = q.front(); q.pop_front();
      g.unlock(); work(j, i); g.lock();
    }
  }
  void check_storage(Job* j) { for (auto& x : j->st) if (x != j->pat) vrt::fail("the storage handed to the backend changed before the backend completed"); }
  void work(Job* j, int share) {
    for (std::size_t i = share; i < j->todo.size(); i += j->shares) { j->b->execute(j->todo[i].first, j->todo[i].second); }
    if (j->left.fetch_sub(1, std::memory_order_acq_rel) != 1) return;
    if (j->p.until_stop) while (!j->stopped.load()) j->stopped.wait(0);
    int how = j->p.how;
    if (j->p.poll && j->tok && j->tok->stop_requested()) how = STOPPED;
    if (j->p.until_stop) how = STOPPED;
    j->cb.reset();
    if (j->r && j->p.use_alloc) {
      auto a = j->r->try_query<ex::__any_allocator<std::byte>>(ex::get_allocator);
      if (!a) vrt::fail("the backend's receiver proxy knows no allocator");
      auto* mem = a->allocate(24); std::memset(mem, 1, 24); a->deallocate(mem, 24); vrt::cover("backend allocated through the proxy");
    }
    check_storage(j); std::memset(j->st.data(), 0, 0);
    vrt::log(90, how, (uint64_t)j->b, 0);
    psr::receiver_proxy* r = j->r ? j->r : j->b;
    switch (how) { case VALUE: r->set_value(); break; case ERROR: r->set_error(std::make_exception_ptr(Boom{j->p.code})); break; default: r->set_stopped(); }
  }
  void launch(Job* j) {
    int shares = j->shares; bool here = ts.empty() || j->p.threads == 0;
    j->left.store(shares, std::memory_order_relaxed);
    if (here && j->p.until_stop) { j->p.until_stop = false; }
    auto t = (j->r ? j->r : j->b)->try_query<ex::inplace_stop_token>(ex::get_stop_token);
    j->tok = t;
    if (token_known) {
      if (token_possible && (!t || !t->stop_possible())) vrt::fail("the backend's receiver proxy has no stop token although the receiver's token can be stopped");
      if (!token_possible && t && t->stop_possible()) vrt::fail("the backend's stop token can be stopped although the receiver's cannot");
    }
    if (t && t->stop_possible()) j->cb.emplace(*t, Job::on_stop{j});
    else j->p.until_stop = false;
    if (here) { for (int i = 0; i < shares; i++) work(j, i); return; }
    { std::lock_guard g(m); for (int i = 0; i < shares; i++) q.push_back({j, i}); }
    cv.notify_all();
  }
  Job* job(std::span<std::byte> st) {
    vrt::quiet qq; std::lock_guard g(m);
    jobs.push_back(std::make_unique<Job>()); Job* j = jobs.back().get(); j->be = this; j->p = p; j->st = st; j->pat = std::byte(0x40 + jobs.size());
    return j;
  }
  void fill(Job* j) {
    if (j->st.size() && (uintptr_t)j->st.data() % 8) vrt::fail("the storage handed to the backend is not aligned");
    for (auto& x : j->st) x = j->pat;
  }
  void schedule(psr::receiver_proxy& r, std::span<std::byte> st) noexcept override { sched.inc(); Job* j = job(st); j->p = sp; j->r = &r; fill(j); launch(j); }
  void schedule_bulk_chunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> st) noexcept override {
    bulk.inc(); requested.set((int)n); Job* j = job(st); j->b = &r; fill(j);
    { vrt::quiet qq; std::size_t at = 0, lim = n; while (at < lim) { std::size_t e = std::min<std::size_t>(lim, at + 1 + vrt::choose(4)); j->todo.push_back({at, e}); at = e; } mix(j); }
    launch(j);
  }
  void schedule_bulk_unchunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> st) noexcept override {
    bulk.inc(); requested.set((int)n); Job* j = job(st); j->b = &r; fill(j);
    { vrt::quiet qq; for (std::size_t i = 0; i < n; i++) j->todo.push_back({i, i + 1}); mix(j); }
    launch(j);
  }
  void mix(Job* j) {
    for (std::size_t i = j->todo.size(); i > 1; i--) std::swap(j->todo[i - 1], j->todo[vrt::choose(i)]);
    if (j->p.partial && j->p.how != VALUE && !j->todo.empty()) j->todo.resize(vrt::choose(j->todo.size()));
    j->shares = 1 + (j->p.threads > 1 ? vrt::choose(j->p.threads) : 0);
  }
};
std::shared_ptr<Chaos>* g_next = nullptr;
std::shared_ptr<psr::parallel_scheduler_backend> none() { return {}; }
std::shared_ptr<psr::parallel_scheduler_backend> chaos_factory() { return *g_next; }
vrt::cell<int> g_made;
using default_be = ex::__parallel_scheduler_default_impl::__parallel_scheduler_backend_impl;
std::shared_ptr<psr::parallel_scheduler_backend> default_factory() { if (g_made.inc() == 1) return {}; return std::make_shared<default_be>(); }
struct Install {                                  // installs a backend for one execution
  explicit Install(decltype(&none) f) { psr::set_parallel_scheduler_backend(f); }
  ~Install() { psr::set_parallel_scheduler_backend(&none); }
};
Plan plan_be(int threads) {
  Plan p; p.threads = threads; p.how = vrt::chance(65) ? VALUE : vrt::range(ERROR, STOPPED); p.code = 50 + vrt::choose(4); p.poll = vrt::chance(50); p.partial = vrt::chance(40);
  return p;
}
struct AllocEnv { ex::inplace_stop_token tok; Arena* a; auto query(ex::get_stop_token_t) const noexcept { return tok; } auto query(ex::get_allocator_t) const noexcept { return Alloc<std::byte>(a); } };
struct OtherTok {                                 // a stop token of another type
  ex::inplace_stop_token t;
  template <class F> struct cbt { ex::inplace_stop_callback<F> c; template <class I> cbt(OtherTok o, I&& i) : c(o.t, (I&&)i) {} };
  template <class F> using callback_type = cbt<F>;
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(OtherTok const&) const noexcept = default;
};
struct OtherEnv { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return OtherTok{tok}; } };
template <class S> void connect_env(Rec& r, S&& s, int kind, ex::inplace_stop_source& src, Arena& a) {
  switch (kind) {
    case 0: connect(r, (S&&)s, TokEnv{src.get_token()}); break;
    case 1: connect(r, (S&&)s, NoEnv{}); break;
    case 2: connect(r, (S&&)s, OtherEnv{src.get_token()}); break;
    default: connect(r, (S&&)s, AllocEnv{src.get_token(), &a}); break;
  }
}
}  // namespace
#if PART == 0
#ifndef BULK_ONLY
VRT_SCENARIO_F(c28_schedule_replaced, 0, 14) {
  Run run;
  int threads = vrt::choose(3);
  auto be = std::make_shared<Chaos>(threads);
  g_next = &be;
  auto src = std::make_unique<ex::inplace_stop_source>(); Arena ar; vrt::cell<int> ran;
  be->p = plan_be(threads);
  int kind = vrt::choose(4); bool can = kind != 1; be->token_known = true; be->token_possible = can; be->p.use_alloc = vrt::chance(50);
  int stop = vrt::chance(50) ? vrt::range(1, 3) : 0;     // 1 before 2 another thread 3 after
  if (stop > 1 && can && vrt::chance(50)) be->p.until_stop = true;
  Plan p = be->sp = be->p; bool aborted = false;
  {
    Install in(&chaos_factory);
    auto sch = ex::get_parallel_scheduler();
    if (!(sch == ex::get_parallel_scheduler()) || !(auto(sch) == sch)) vrt::fail("two parallel schedulers with the same backend differ");
    Rec rec; rec.name = "schedule"; rec.mode = (Mode)vrt::choose(3);
    auto snd = ex::schedule(sch);
    if (!(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(snd)) == sch)) vrt::fail("the sender's completion scheduler is another scheduler");
    auto work = [&]() noexcept { ran.inc(); return 5; };
    if (vrt::chance(50)) connect_env(rec, snd | ex::then(work), kind, *src, ar); else connect_env(rec, std::move(snd) | ex::then(work), kind, *src, ar);
    if (stop == 1) src->request_stop();
    std::thread st; if (stop == 2) st = std::thread([&] { src->request_stop(); });
    if (vrt::chance(5) && stop != 2) { aborted = true; rec.destroy(); vrt::cover("operation destroyed without being started"); }
    else {
      rec.start();
      if (stop == 3) src->request_stop();
      rec.wait();
    }
    if (st.joinable()) st.join();
    if (rec.mode != KEEP) rec.destroy();
    src.reset();
    rec.destroy();
    if (!aborted) {
      int ch = rec.ch.get();
      bool stopped_ok = (stop && can) ;
      if (ch == VALUE && (ran.get() != 1 || rec.v[0].get() != 5)) vrt::fail("completed with value, but the continuation ran %d times", ran.get());
      if (ch != VALUE && ran.get()) vrt::fail("the continuation ran although the backend did not complete with value");
      if (ch != p.how && !(ch == STOPPED && stopped_ok)) vrt::fail("the backend completed with %s, the operation with %s", chname(p.how), chname(ch));
      if (ch == ERROR && rec.code.get() != p.code) vrt::fail("the backend's error %d became %d", p.code, rec.code.get());
      if (stop == 1 && can && (ch != STOPPED || be->sched.get())) vrt::fail("stop was requested before start, yet the operation completed with %s and the backend was called %d times", chname(ch), be->sched.get());
      vrt::outcome("%s env %d", chname(ch), kind);
    }
    if (ar.live.get()) vrt::fail("allocations not returned");
    g_next = nullptr;
  }
  be->close();
  if (be.use_count() != 1) vrt::fail("%ld references to the backend remain after everything that used it is gone", be.use_count() - 1);
}
#endif
VRT_SCENARIO_F(c28_bulk_replaced, 0, 30) {
  Run run;
  int threads = vrt::choose(3);
  auto be = std::make_shared<Chaos>(threads);
  g_next = &be;
  BulkW w; Leaf l; Completer c;
  plan(w, l, 2);
  l.by = &c; c.open();
  be->p = plan_be(threads);
  Plan p = be->p; be->sp.threads = threads;
  ex::inplace_stop_source src; int stop = vrt::chance(25) ? vrt::range(1, 2) : 0;
  {
    Install in(&chaos_factory);
    auto sch = ex::get_parallel_scheduler();
    if (vrt::chance(15)) arm(vrt::range(1, 30), 900);
    bool started = true;
    auto launch = [&](auto prev) {
      auto fin = [&](auto&& s) { connect(w.rec, (decltype(s)&&)s, TokEnv{src.get_token()}); };
      auto alg = [&](auto f, auto pol, auto sz) { switch (w.alg) { case 0: fin(std::move(prev) | ex::bulk(pol, sz, f)); break; case 1: fin(std::move(prev) | ex::bulk_chunked(pol, sz, f)); break; default: fin(std::move(prev) | ex::bulk_unchunked(pol, sz, f)); } };
      auto pol = [&](auto f) { switch (vrt::choose(4)) { case 0: alg(f, ex::seq, (int)w.shape); vrt::cover("seq"); break; case 1: alg(f, ex::par_unseq, (std::size_t)w.shape); break; case 2: alg(f, ex::par, (unsigned char)w.shape); break; default: alg(f, ex::unseq, (long)w.shape); } };
      if (w.nothrow) pol(Fn<true>(&w)); else pol(Fn<false>(&w));
    };
    bool conn = true;
    // a stop request or the schedule itself may already have stopped or failed the predecessor
    try { launch(ex::continues_on(source(l), sch)); } catch (Boom&) { conn = false; vrt::cover("connect threw"); }
    bool injected = false;
    if (conn) {
      if (vrt::chance(5)) { w.rec.destroy(); started = false; vrt::cover("operation destroyed without being started"); }
      else {
        if (stop == 1) src.request_stop();
        std::thread st; if (stop == 2) st = std::thread([&] { src.request_stop(); });
        w.rec.start(); w.rec.finish();
        if (st.joinable()) st.join();
      }
    }
    injected = G.thrown.get() == 900;
    w.rec.destroy();
    c.close();
    if (conn && started) {
      int ch = w.rec.ch.get(), code = w.rec.code.get();
      if (ch == ERROR && l.how != ERROR && code == p.code && p.how == ERROR) ;
      else if (stop && ch == STOPPED) ;
      else if (ch == STOPPED && p.how == STOPPED) ;
      else if (injected && ch == ERROR && code == 900) vrt::cover("injected exception delivered");
      else verdict(w, l);
      if (ch == VALUE && p.how != VALUE && be->bulk.get()) vrt::fail("the backend completed with %s, the operation with value", chname(p.how));
    }
    arm(0, 0);
    g_next = nullptr;
  }
  be->close();
  if (be.use_count() != 1) vrt::fail("%ld references to the backend remain after everything that used it is gone", be.use_count() - 1);
}
#endif
#if PART == 1
VRT_SCENARIO_F(c28_bulk_default, vrt::F_BIG, 20) {
  Run run;
  vrt_hardware_concurrency = vrt::range(1, 3); g_made.set(0);
  BulkW w; Leaf l;
  {
    Install in(&default_factory);
    plan(w, l, vrt_hardware_concurrency);
    w.pool = true; w.outsider[vrt::tid()].set(1);
    Completer c; l.by = &c; c.open();
    auto sch = ex::get_parallel_scheduler();
    auto prev = ex::continues_on(source(l), sch);
    if (w.nothrow) pick<true>(w, std::move(prev)); else pick<false>(w, std::move(prev));
    w.rec.start(); w.rec.finish();
    c.close();
  }
  verdict(w, l);
}
VRT_SCENARIO_F(c28_chain_default, vrt::F_BIG, 10) {
  Run run;
  vrt_hardware_concurrency = vrt::range(1, 3); g_made.set(0);
  BulkW w[2]; Leaf l[2];
  {
    Install in(&default_factory);
    auto sch = ex::get_parallel_scheduler();
    for (int i = 0; i < 2; i++) { w[i].shape = vrt::range(0, 5); w[i].nothrow = true; w[i].rec.name = "chained bulk"; l[i].how = VALUE; l[i].val = 77; }
    Rec r; r.mode = vrt::chance(50) ? SELF : HANDOFF; r.name = "bulks";
    auto one = [&](int i) { return ex::continues_on(source(l[i]), sch) | ex::bulk(ex::par, (int)w[i].shape, Fn<true>(&w[i])); };
    int k = vrt::choose(3);
    if (k == 0) connect(r, ex::when_all(one(0), one(1)), TokEnv{});
    else if (k == 1) { BulkW& b = w[1]; connect(r, one(0) | ex::bulk_chunked(ex::par, 3, [](int, int, NVal&, Slots&) noexcept {}) | ex::bulk_unchunked(ex::seq, 2, [&b](int i, NVal&, Slots&) noexcept { if (b.hit[i].inc() != 1) vrt::fail("chained bulk: index %d twice", i); }), TokEnv{}); }
    else connect(r, ex::just(NVal(1)) | ex::let_value([&](NVal&) noexcept { return one(0); }), TokEnv{});
    r.start(); r.finish();
    expect(r, VALUE);
    for (int q = 0; q < (k == 0 ? 2 : 1); q++) for (long i = 0; i < w[q].shape; i++) if (w[q].hit[i].get() != 1) vrt::fail("index %ld not called exactly once", i);
    if (k == 1) for (int i = 0; i < 2; i++) if (w[1].hit[i].get() != 1) vrt::fail("second bulk: index %d not called exactly once", i);
  }
}
#ifndef BULK_ONLY
VRT_SCENARIO_F(c28_schedule_default, vrt::F_BIG, 14) {
  Run run;
  vrt_hardware_concurrency = vrt::range(1, 3); g_made.set(0);
  vrt::cell<int> ran; vrt::cell<int> outsider[40];
  {
    Install in(&default_factory);
    constexpr int N = 3; ex::inplace_stop_source src[N]; Rec rec[N]; int k = vrt::range(1, N); bool stopped[N] = {};
    outsider[vrt::tid()].set(1);
    std::optional<ex::parallel_scheduler> other; std::thread th;
    bool race = vrt::chance(50);
    if (race) th = std::thread([&] { outsider[vrt::tid()].set(1); other.emplace(ex::get_parallel_scheduler()); });
    auto sch = ex::get_parallel_scheduler();
    if (race) { th.join(); vrt::cover("first use races"); if (!(*other == sch)) vrt::fail("two parallel schedulers obtained concurrently differ"); other.reset(); }
    if (!(sch == ex::get_parallel_scheduler())) vrt::fail("get_parallel_scheduler returned a different scheduler");
    if (ex::get_forward_progress_guarantee(sch) != ex::forward_progress_guarantee::parallel) vrt::fail("wrong forward progress guarantee");
    auto work = [&]() noexcept { if (outsider[vrt::tid()].get()) vrt::fail("work ran on a thread that is not the scheduler's"); ran.inc(); return 5; };
    for (int i = 0; i < k; i++) { rec[i].name = "scheduled work"; rec[i].mode = vrt::chance(50) ? SELF : HANDOFF; if (vrt::chance(70)) connect(rec[i], ex::schedule(sch) | ex::then(work), TokEnv{src[i].get_token()}); else connect(rec[i], ex::continues_on(ex::just(), sch) | ex::then(work), OtherEnv{src[i].get_token()}); }
    for (int i = 0; i < k; i++) { if (vrt::chance(20)) { src[i].request_stop(); stopped[i] = true; } rec[i].start(); }
    std::thread st; if (vrt::chance(40)) { stopped[0] = true; st = std::thread([&] { src[0].request_stop(); }); }
    for (int i = 0; i < k; i++) rec[i].finish();
    if (st.joinable()) st.join();
    int v = 0;
    for (int i = 0; i < k; i++) { if (rec[i].ch.get() == VALUE) v++; else if (rec[i].ch.get() == STOPPED && stopped[i]) ; else vrt::fail("scheduled work completed with %s", chname(rec[i].ch.get())); }
    if (v != ran.get()) vrt::fail("%d operations completed with value, the work ran %d times", v, ran.get());
  }
}
#endif
#ifndef BULK_ONLY
// the default backend, driven directly with storage of every size and alignment
VRT_SCENARIO_F(c28_backend_storage, vrt::F_BIG, 14) {
  Run run;
  vrt_hardware_concurrency = vrt::range(1, 3); g_made.set(1);
  struct P : psr::bulk_item_receiver_proxy {
    std::atomic<int> done{0}; vrt::cell<int> how, hit[32]; long n = 0;
    void fin(int h) noexcept { if (how.get()) vrt::fail("the backend completed a proxy twice"); how.set(h + 10); vrt::observed(); done.store(1); done.notify_all(); }
    void set_value() noexcept override { fin(VALUE); }
    void set_error(std::exception_ptr) noexcept override { fin(ERROR); }
    void set_stopped() noexcept override { fin(STOPPED); }
    void execute(std::size_t b, std::size_t e) noexcept override { if (b >= e || (long)e > n) vrt::fail("execute(%zu,%zu) of %ld", b, e, n); for (; b < e; b++) if (hit[b].inc() != 1) vrt::fail("index %zu executed twice", b); if (how.get()) vrt::fail("execute after completion"); }
    void __query_env(ex::__type_index, ex::__type_index, void*) const noexcept override {}
  };
  {
    Install in(&default_factory);
    auto be = psr::query_parallel_scheduler_backend();
    constexpr int N = 3; P p[N]; alignas(64) std::byte buf[N][400]; int off[N], len[N], k = vrt::range(1, N);
    for (int i = 0; i < k; i++) {
      for (auto& x : buf[i]) x = std::byte(0xA5);
      off[i] = vrt::chance(30) ? 0 : vrt::choose(65); len[i] = vrt::chance(20) ? vrt::choose(16) : vrt::choose(300);
      std::span<std::byte> s(buf[i] + off[i], len[i]); if (vrt::chance(10)) s = {}, len[i] = 0;
      p[i].n = vrt::choose(24);
      if (vrt::chance(15)) { vrt::fail_alloc(vrt::range(1, 2), true); }
      switch (vrt::choose(3)) { case 0: p[i].n = -1; be->schedule(p[i], s); break; case 1: be->schedule_bulk_chunked(p[i].n, p[i], s); break; default: be->schedule_bulk_unchunked(p[i].n, p[i], s); }
      bool failed = vrt::alloc_failed(); vrt::fail_alloc(0);
      if (failed) vrt::cover("backend allocation failed");
      p[i].done.wait(0);
      int h = p[i].how.get() - 10;
      if (h != VALUE && !(failed && h == ERROR)) vrt::fail("the backend completed with %s", chname(h));
      if (h == VALUE) for (long q = 0; q < p[i].n; q++) if (p[i].hit[q].get() != 1) vrt::fail("index %ld of %ld executed %d times", q, p[i].n, p[i].hit[q].get());
      if (h == ERROR) for (long q = 0; q < p[i].n; q++) if (p[i].hit[q].get()) vrt::fail("failed to start, yet executed");
      for (int b = 0; b < 400; b++) if ((b < off[i] || b >= off[i] + len[i]) && buf[i][b] != std::byte(0xA5)) vrt::fail("the backend wrote outside the storage it was given (offset %d, given [%d,%d))", b, off[i], off[i] + len[i]);
    }
  }
}
#endif
#endif
#if PART == 0
// predecessor's values that throw when they are copied or moved
VRT_SCENARIO_F(c28_bulk_values, 0, 14) {
  Run run;
  int threads = vrt::choose(3);
  auto be = std::make_shared<Chaos>(threads);
  g_next = &be;
  be->p = plan_be(threads); be->p.partial = false; be->sp.threads = threads;
  Plan p = be->p; vrt::cell<int> calls; vrt::cell<int> hit[8]; int shape = vrt::choose(6), fthrow = vrt::chance(25) ? vrt::choose(6) : -1; bool threw = false;
  struct F : Tracked { vrt::cell<int>* h; vrt::cell<int>* c; int t; bool* threw; F(vrt::cell<int>* x, vrt::cell<int>* cc, int tt, bool* y) : h(x), c(cc), t(tt), threw(y) {}
    F(F const& o) : Tracked(o), h(o.h), c(o.c), t(o.t), threw(o.threw) { throw_point(); }
    F(F&&) = default;
    void operator()(int i, Val& a, Val& b) const { chk(); c->inc(); if (a.get() != 41 || b.get() != 42) vrt::fail("wrong values"); if (h[i].inc() != 1) vrt::fail("index %d twice", i); if (i == t) { vrt::quiet q; *threw = true; throw Boom{500 + i}; } } };
  {
    Install in(&chaos_factory);
    auto sch = ex::get_parallel_scheduler();
    Rec rec; rec.name = "bulk"; rec.mode = vrt::chance(50) ? SELF : HANDOFF;
    bool conn = true;
    auto two = ex::schedule(sch) | ex::let_value([]() noexcept { return ex::just(1) | ex::let_value([](int&) { return ex::just(Val(41), Val(42)); }); });
    F f(hit, calls.get() ? nullptr : &calls, fthrow, &threw);
    G.moves_throw = vrt::chance(60); if (vrt::chance(75)) arm(vrt::range(1, 24), 900);
    try {
      switch (vrt::choose(5)) {
        case 3: { auto snd = ex::continues_on(ex::just(Val(41), Val(42)), sch) | ex::bulk(ex::par, shape, f); connect(rec, snd); break; }
        case 4: { auto snd = ex::continues_on(ex::just(Val(41), Val(42)), sch) | ex::bulk_unchunked(ex::par, shape, f); connect(rec, std::move(snd)); break; }
        case 0: connect(rec, std::move(two) | ex::bulk(ex::par, shape, std::move(f))); break;
        case 1: connect(rec, std::move(two) | ex::bulk_unchunked(ex::par, shape, std::move(f))); break;
        default: connect(rec, std::move(two) | ex::bulk_unchunked(ex::seq, shape, std::move(f))); break;
      }
    } catch (Boom&) { conn = false; vrt::cover("connecting threw"); }
    if (conn && vrt::chance(95)) {
      rec.start(); rec.finish();
      int ch = rec.ch.get(), code = rec.code.get();
      bool inj = G.thrown.get() == 900;
      if (ch == VALUE) {
        if (p.how != VALUE && be->bulk.get()) vrt::fail("the backend completed with %s, the operation with value", chname(p.how));
        if (threw || inj) vrt::fail("an exception was lost");
        if (rec.n.get() != 2 || rec.v[0].get() != 41 || rec.v[1].get() != 42) vrt::fail("the predecessor's values were not delivered");
        for (int i = 0; i < shape; i++) if (hit[i].get() != 1) vrt::fail("index %d not called", i);
      } else if (ch == ERROR) {
        bool ok = (inj && code == 900) || (p.how == ERROR && code == p.code) || (threw && code == 500 + fthrow);
        if (!ok) vrt::fail("completed with error %d (backend %s %d, injected %d, function threw %d)", code, chname(p.how), p.code, inj, threw);
        if (inj) vrt::cover("values' exception delivered");
      } else if (p.how != STOPPED) vrt::fail("completed with stopped");
    }
    rec.destroy();
    arm(0, 0); G.moves_throw = false;
    g_next = nullptr;
  }
  be->close();
  if (be.use_count() != 1) vrt::fail("%ld references to the backend remain", be.use_count() - 1);
}
#endif
#if PART == 2
// task_scheduler in front of other schedulers
struct LoopThread { ex::run_loop loop; std::thread th; LoopThread() : th([this] { loop.run(); }) {} ~LoopThread() { loop.finish(); th.join(); } };
template <class F> void with_scheduler(int kind, F f) {     // kind 0 inline, 1 pool, 2 run_loop
  if (kind == 0) f(ex::inline_scheduler{});
  else if (kind == 1) { exec::static_thread_pool p(vrt::range(1, 3), exec::bwos_params{.numBlocks = 2, .blockSize = 2}); f(p.get_scheduler()); }
  else { LoopThread lt; f(lt.loop.get_scheduler()); }
}
#ifndef BULK_ONLY
VRT_SCENARIO_F(c28_task_schedule, vrt::F_BIG, 16) {
  Run run; Arena ar; vrt::cell<int> outsider[40], ran; int kind = vrt::choose(3);
  outsider[vrt::tid()].set(1);
  {
  with_scheduler(kind, [&](auto base) {
    bool own = vrt::chance(50);
    std::optional<ex::task_scheduler> ts;
    if (own) ts.emplace(base, Alloc<std::byte>(&ar)); else ts.emplace(base);
    ex::task_scheduler cp = *ts, other{ex::inline_scheduler{}};
    if (!(cp == *ts)) vrt::fail("a copy of a task_scheduler differs from the original");
    if (kind && cp == other) vrt::fail("task_schedulers over different schedulers are equal");
    if (vrt::chance(40)) { other = *ts; if (!(other == cp)) vrt::fail("an assigned task_scheduler differs"); cp = std::move(other); if (!(cp == *ts)) vrt::fail("a move-assigned task_scheduler differs"); }
    if (ex::get_forward_progress_guarantee(cp) != ex::get_forward_progress_guarantee(base)) vrt::fail("wrong forward progress guarantee");
    constexpr int N = 3; ex::inplace_stop_source src[N]; Rec rec[N]; int k = vrt::range(1, N); bool stopped[N] = {};
    auto work = [&]() noexcept { if (kind && outsider[vrt::tid()].get()) vrt::fail("work ran on a thread that is not the scheduler's"); ran.inc(); return 5; };
    for (int i = 0; i < k; i++) {
      rec[i].name = "scheduled work"; rec[i].mode = vrt::chance(50) ? SELF : HANDOFF;
      auto snd = ex::schedule(cp);
      if (!(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(snd)) == cp)) vrt::fail("the sender's completion scheduler is another scheduler");
      switch (vrt::choose(3)) { case 0: connect(rec[i], snd | ex::then(work), TokEnv{src[i].get_token()}); break; case 1: connect(rec[i], std::move(snd) | ex::then(work), NoEnv{}); break; default: connect(rec[i], ex::starts_on(cp, ex::just() | ex::then(work)), TokEnv{src[i].get_token()}); }
    }
    if (vrt::chance(50)) ts.reset();
    for (int i = 0; i < k; i++) { if (vrt::chance(20)) { src[i].request_stop(); stopped[i] = true; } rec[i].start(); }
    std::thread st; if (vrt::chance(40)) { stopped[0] = true; st = std::thread([&] { src[0].request_stop(); }); }
    for (int i = 0; i < k; i++) rec[i].finish();
    if (st.joinable()) st.join();
    int v = 0;
    for (int i = 0; i < k; i++) { if (rec[i].ch.get() == VALUE) v++; else if (rec[i].ch.get() == STOPPED && stopped[i]) vrt::cover("stopped"); else vrt::fail("scheduled work completed with %s", chname(rec[i].ch.get())); }
    if (v != ran.get()) vrt::fail("%d operations completed with value, the work ran %d times", v, ran.get());
  });
  }
  if (ar.live.get()) vrt::fail("%d blocks not returned to the allocator", ar.live.get());
}
#endif
VRT_SCENARIO_F(c28_task_bulk, vrt::F_BIG, 30) {
  Run run; Arena ar; int kind = vrt::choose(3); BulkW w; Leaf l; Completer c;
  plan(w, l, 2);
  l.by = &c; c.open();
  w.pool = kind != 0; w.outsider[vrt::tid()].set(1);
  with_scheduler(kind, [&](auto base) {
    ex::task_scheduler ts = vrt::chance(50) ? ex::task_scheduler(base) : ex::task_scheduler(base, Alloc<std::byte>(&ar));
    auto prev = ex::continues_on(source(l), ts);
    if (w.nothrow) pick<true>(w, std::move(prev)); else pick<false>(w, std::move(prev));
    if (vrt::chance(5)) { w.rec.destroy(); vrt::cover("operation destroyed without being started"); return; }
    w.rec.start(); w.rec.finish();
    c.close();                                     // nobody is inside the pool's enqueue when it goes away
  });
  c.close();
  if (w.rec.started.get()) verdict(w, l);
  if (ar.live.get()) vrt::fail("%d blocks not returned to the allocator", ar.live.get());
}
// a scheduler with its own bulk: over-aligned operation states, failing, throwing on connect, on other threads
struct OwnCtx { int how = VALUE, code = 0; bool throw_connect = false; size_t align = 8; vrt::cell<int> begun, sched; };
template <int AL, class Fn, class R> struct own_bulk_op {
  using operation_state_concept = ex::operation_state_tag;
  R r; Fn fn; size_t n; OwnCtx* c; alignas(AL) std::byte body[8];
  own_bulk_op(R r_, Fn f, size_t n_, OwnCtx* c_) : r((R&&)r_), fn(std::move(f)), n(n_), c(c_) { if ((uintptr_t)body % AL) vrt::fail("an operation state that requires an alignment of %d was constructed at %p", AL, (void*)body); if (c->throw_connect) throw Boom{70}; }
  own_bulk_op(own_bulk_op&&) = delete;
  void fin() noexcept { switch (c->how) { case VALUE: ex::set_value((R&&)r); break; default: ex::set_error((R&&)r, std::make_exception_ptr(Boom{c->code})); } }
  void start() & noexcept {
    c->begun.inc();
    for (size_t i = 0; i < n; i++) call(i, i + 1);
    fin();
  }
  void call(size_t b, size_t e) noexcept { if constexpr (requires { fn(b, e); }) fn(b, e); else for (; b < e; b++) fn(b); }
};
template <int AL, class Fn> struct own_bulk_sender {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr)>;
  Fn fn; size_t n; OwnCtx* c;
  template <class R> auto connect(R r) && { return own_bulk_op<AL, Fn, R>((R&&)r, std::move(fn), n, c); }
};
template <int AL> struct own_domain : ex::default_domain {
  template <exec::sender_for S, class Env> requires std::same_as<ex::tag_of_t<S>, ex::bulk_chunked_t> || std::same_as<ex::tag_of_t<S>, ex::bulk_unchunked_t>
  auto transform_sender(ex::set_value_t, S&& s, Env const& e) const;
};
template <int AL> struct own_scheduler {
  using scheduler_concept = ex::scheduler_tag;
  OwnCtx* c;
  template <class R> struct op { using operation_state_concept = ex::operation_state_tag; R r; OwnCtx* c; void start() & noexcept { c->sched.inc(); ex::set_value((R&&)r); } };
  struct env { OwnCtx* c; auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const&...) const noexcept { return own_scheduler{c}; } };
  struct snd { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>; OwnCtx* c; template <class R> op<R> connect(R r) const noexcept { return {(R&&)r, c}; } env get_env() const noexcept { return {c}; } };
  snd schedule() const noexcept { return {c}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto const&...) const noexcept { return own_domain<AL>{}; }
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const&...) const noexcept { return *this; }
  bool operator==(own_scheduler const&) const noexcept = default;
};
template <int AL> template <exec::sender_for S, class Env> requires std::same_as<ex::tag_of_t<S>, ex::bulk_chunked_t> || std::same_as<ex::tag_of_t<S>, ex::bulk_unchunked_t>
auto own_domain<AL>::transform_sender(ex::set_value_t, S&& s, Env const& e) const {
  auto sch = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), e);
  auto& [tag, data, child] = s; auto& [pol, shape, fn] = data;
  return own_bulk_sender<AL, std::remove_cvref_t<decltype(fn)>>{std::move(fn), (size_t)shape, sch.c};
}
template <int AL> void own_bulk_run(BulkW& w, Leaf& l, OwnCtx& oc, Arena& ar) {
  ex::task_scheduler ts = vrt::chance(50) ? ex::task_scheduler(own_scheduler<AL>{&oc}) : ex::task_scheduler(own_scheduler<AL>{&oc}, Alloc<std::byte>(&ar));
  auto prev = ex::continues_on(source(l), ts);
  if (w.nothrow) pick<true>(w, std::move(prev)); else pick<false>(w, std::move(prev));
}
VRT_SCENARIO_F(c28_task_own_bulk, 0, 20) {
  Run run; Arena ar; BulkW w; Leaf l; Completer c; OwnCtx oc;
  plan(w, l, 2); l.by = &c; c.open();
  oc.how = vrt::chance(75) ? VALUE : ERROR; oc.code = 60; oc.throw_connect = vrt::chance(15);
  if (vrt::chance(50)) own_bulk_run<32>(w, l, oc, ar); else own_bulk_run<8>(w, l, oc, ar);
  w.rec.start(); w.rec.finish(); c.close();
  int ch = w.rec.ch.get(), code = w.rec.code.get();
  if (oc.throw_connect && l.how == VALUE) { if (ch != ERROR || code != 70 || w.calls.get()) vrt::fail("the backend could not start the bulk work, the operation completed with %s(%d) after %d calls", chname(ch), code, w.calls.get()); vrt::cover("backend's connect threw"); }
  else if (oc.how == ERROR && l.how == VALUE) { if (ch != ERROR) vrt::fail("the backend completed with an error, the operation with %s", chname(ch)); vrt::cover("backend failed"); }
  else verdict(w, l);
  if (ar.live.get()) vrt::fail("%d blocks not returned to the allocator", ar.live.get());
}
#endif

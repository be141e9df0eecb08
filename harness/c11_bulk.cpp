#ifndef PART
#define PART 0
#endif
// C11: bulk, bulk_chunked, bulk_unchunked: inline, on static_thread_pool, on a pool derived from thread_pool_base.
#include "bulkmon.hpp"
namespace {
struct bq {                                        // a minimal pool for thread_pool_base
};
class my_pool : public exec::thread_pool_base<my_pool> {
 public:
  explicit my_pool(int n) : n_(n) { for (int i = 0; i < n; i++) ts_.emplace_back([this] { run(); }); }
  ~my_pool() { { std::lock_guard g(m_); stop_ = true; } cv_.notify_all(); for (auto& t : ts_) t.join(); }
  auto available_parallelism() const -> std::uint32_t { return n_; }
 private:
  friend class exec::thread_pool_base<my_pool>;
  template <class P, class R> friend struct exec::_pool_::opstate;
  static constexpr auto forward_progress_guarantee() { return ex::forward_progress_guarantee::parallel; }
  void enqueue(exec::_pool_::task_base* t, std::uint32_t tid = 0) noexcept { { std::lock_guard g(m_); q_.push_back({t, tid}); } cv_.notify_one(); }
  void run() {
    std::unique_lock g(m_);
    for (;;) {
      cv_.wait(g, [&] { return stop_ || !q_.empty(); });
      if (q_.empty()) return;
      auto [t, tid] = q_.front(); q_.pop_front();
      g.unlock(); t->execute_(t, tid); g.lock();
    }
  }
  std::uint32_t n_; std::mutex m_; std::condition_variable cv_; std::deque<std::pair<exec::_pool_::task_base*, std::uint32_t>> q_; bool stop_ = false; std::vector<std::thread> ts_;
};
template <class Pool> void on_pool(Pool& pool, BulkW& w, Leaf& l, int threads) {
  plan(w, l, threads);
  w.pool = true;
  w.outsider[vrt::tid()].set(1);
  Completer c; l.by = &c; c.open();
  auto prev = ex::continues_on(source(l), pool.get_scheduler());
  if (w.nothrow) pick<true>(w, std::move(prev)); else pick<false>(w, std::move(prev));
  w.rec.start();
  w.rec.finish();
  c.close();
}
}  // namespace
#if PART == 0
VRT_SCENARIO_F(c11_inline, 0, 10) {
  Run run;
  BulkW w; Leaf l;
  plan(w, l, 1);
  Completer c; if (l.where == EXTERN) { l.by = &c; c.open(); }
  if (w.nothrow) pick<true>(w, source(l)); else pick<false>(w, source(l));
  w.rec.start();
  w.rec.finish();
  c.close();
  verdict(w, l);
}
#endif
#if PART == 1
VRT_SCENARIO_F(c11_pool_base, vrt::F_BIG, 25) {
  Run run;
  BulkW w; Leaf l;
  int n = vrt::range(1, 3);
  { my_pool p(n); on_pool(p, w, l, n); }
  verdict(w, l);
}
#endif
#if PART == 0
// partition arithmetic over the full range of sizes
VRT_SCENARIO_F(c11_even_share, vrt::F_SEQ, 6) {
  for (int k = 0; k < 20; k++) {
    long long shape = vrt::chance(50) ? vrt::choose(200) : vrt::chance(50) ? (long long)vrt::choose(1u << 31) : ((long long)vrt::choose(1u << 30) << 20) + vrt::choose(1000);
    unsigned n = 1 + (vrt::chance(70) ? vrt::choose(12) : vrt::choose(4096));
    auto check = [&](auto s) {
      decltype(s) at = 0; decltype(s) mn = std::numeric_limits<decltype(s)>::max(), mx = 0;
      for (unsigned r = 0; r < n; r++) { auto [b, e] = exec::_pool_::even_share(s, r, n); if (b != at || e < b) vrt::fail("even_share(%lld, %u, %u) = [%lld,%lld), previous share ended at %lld", (long long)s, r, n, (long long)b, (long long)e, (long long)at); at = e; mn = std::min<decltype(s)>(mn, e - b); mx = std::max<decltype(s)>(mx, e - b); }
      if (at != s) vrt::fail("even_share(%lld, *, %u) ends at %lld", (long long)s, n, (long long)at);
      if (mx - mn > 1) vrt::fail("even_share(%lld, *, %u): shares differ by more than one", (long long)s, n);
    };
    check(shape); check((unsigned long)shape); if (shape < 2147483647) check((int)shape); if (shape < 120) check((signed char)shape);
    vrt::observed();
  }
}
#endif
#if PART == 2
VRT_SCENARIO_F(c11_pool, vrt::F_BIG, 30) {
  Run run;
  BulkW w; Leaf l;
  int n = vrt::range(1, 3);
  { exec::static_thread_pool p(n, exec::bwos_params{.numBlocks = vrt::range(1, 3), .blockSize = vrt::range(1, 3)}); on_pool(p, w, l, n); }
  verdict(w, l);
}
// several bulk operations chained and nested in when_all, sharing the pool
VRT_SCENARIO_F(c11_chain, vrt::F_BIG, 12) {
  Run run;
  BulkW w[2]; Leaf l[2];
  {
    int n = vrt::range(1, 3);
    exec::static_thread_pool p(n, exec::bwos_params{.numBlocks = 1, .blockSize = 2});
    for (int i = 0; i < 2; i++) { w[i].shape = vrt::range(1, 5); w[i].nothrow = true; w[i].rec.name = "chained bulk"; l[i].how = VALUE; l[i].val = 77; }
    Rec r; r.mode = vrt::chance(50) ? SELF : HANDOFF; r.name = "when_all of bulks";
    auto one = [&](int i) { return ex::continues_on(source(l[i]), p.get_scheduler()) | ex::bulk(ex::par, (int)w[i].shape, Fn<true>(&w[i])); };
    if (vrt::chance(50)) connect(r, ex::when_all(one(0), one(1)), TokEnv{});
    else connect(r, one(0) | ex::then([](NVal v, Slots s) noexcept { for (int i = 0; i < 24; i++) s.a[i] = s.a[i] ? 0 : s.a[i]; return std::make_pair(std::move(v), s); }) | ex::let_value([](std::pair<NVal, Slots>& q) noexcept { return ex::just(NVal(q.first), q.second); }) | ex::continues_on(p.get_scheduler()) | ex::bulk_chunked(ex::par, (int)w[1].shape, Fn<true>(&w[1])), TokEnv{});
    r.start(); r.finish();
    expect(r, VALUE);
    if (r.n.get() == 4) { if (r.v[1].get() != w[0].shape || r.v[3].get() != w[1].shape) vrt::fail("effects of the calls are missing"); }
    else if (r.v[1].get() != w[1].shape) vrt::fail("effects of the second bulk are missing");
    for (auto& x : w) for (long i = 0; i < x.shape; i++) if (x.hit[i].get() != 1) vrt::fail("index %ld not called exactly once", i);
  }
}
// many bulk operations at once on small queues: their tasks are stolen by other workers
VRT_SCENARIO_F(c11_many, vrt::F_BIG, 20) {
  Run run;
  constexpr int N = 6;
  BulkW w[N]; Leaf l[N];
  {
    int n = vrt::chance(80) ? 3 : 2, k = vrt::range(3, N);
    exec::static_thread_pool p(n, exec::bwos_params{.numBlocks = vrt::chance(70) ? 8u : vrt::range(2, 4), .blockSize = vrt::chance(80) ? 1u : 2u});
    for (int i = 0; i < k; i++) {
      BulkW& x = w[i];
      x.shape = vrt::range(1, 5); x.nothrow = true; x.rec.name = "one of many bulks"; x.sync_only.set(1); x.rec.mode = vrt::chance(50) ? SELF : HANDOFF; x.rec.user = &x; x.rec.after = done;
      l[i].how = VALUE; l[i].val = 77;
      connect(x.rec, ex::continues_on(source(l[i]), p.get_scheduler()) | ex::bulk_chunked(ex::par, (int)x.shape, Fn<true>(&x)), TokEnv{});
    }
    Rec blocker; std::atomic<int> go{0};               // worker 0 is kept busy while tasks pile up for it
    connect(blocker, ex::schedule(p.get_scheduler_on_thread(0)) | ex::then([&]() noexcept { go.wait(0); }), TokEnv{});
    bool block = vrt::chance(70);
    if (block) blocker.start();
    for (int i = 0; i < k; i++) w[i].rec.start();
    for (int i = vrt::choose(60); i--;) std::this_thread::yield();
    go.store(1); go.notify_all();
    for (int i = 0; i < k; i++) { w[i].rec.finish(); expect(w[i].rec, VALUE); }
    if (block) blocker.finish();
  }
}
#endif

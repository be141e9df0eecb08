// C27: io_uring_context against a simulated kernel (rings, eventfd, timeouts, cancellation) in virtual time.
// The context's own code runs unchanged; only its system calls are answered here, with what the kernel
// is allowed to do: short submissions, interrupted waits, delayed and reordered completions.
#include "mon.hpp"
#include <linux/io_uring.h>
#include <linux/version.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <exec/timed_scheduler.hpp>
#include <exec/scope.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/bit_cast.hpp>
using namespace mon;
using namespace std::chrono_literals;

namespace c27k {
using clk = std::chrono::steady_clock;
enum : int { RINGFD = 71, EVFD = 72 };
struct Knobs { int shortpct = 0, eintr = 0, delay = 0, failsetup = 0; bool single = true; int fail_timeouts = 0; };
struct Kernel {
  Knobs kn;
  unsigned entries = 0, cqn = 0;
  struct Mem { char* p; size_t n; };
  Mem sq{}, cq{}, sqe{};                 // as mapped
  char* shared = nullptr;
  bool ring_open = false, ev_open = false, closing = false;
  std::mutex m; std::condition_variable worker, waiter;
  std::thread th;
  uint64_t evcount = 0;
  struct Read { uint64_t ud; void* buf; };
  struct Tmo { uint64_t ud; clk::time_point at; bool fail; };
  std::vector<Read> reads; std::vector<Tmo> tmos; std::deque<io_uring_cqe> late, overflow;
  unsigned scrub = 0;
  // layout
  static constexpr unsigned SQ_HEAD = 0, SQ_TAIL = 4, SQ_MASK = 8, CQ_HEAD = 16, CQ_TAIL = 20, CQ_MASK = 24, ARR = 64;
  unsigned cqes_off() const { return kn.single ? ARR + ((entries * 4 + 63) & ~63u) : 64; }
  unsigned& sqw(unsigned o) { return *(unsigned*)(sq.p + o); }
  unsigned& cqw(unsigned o) { return *(unsigned*)((kn.single ? sq.p : cq.p) + o); }
  io_uring_cqe* cqes() { return (io_uring_cqe*)((kn.single ? sq.p : cq.p) + cqes_off()); }
  unsigned ld(unsigned& w) { return __atomic_load_n(&w, __ATOMIC_ACQUIRE); }
  void st(unsigned& w, unsigned v) { __atomic_store_n(&w, v, __ATOMIC_RELEASE); }

  bool place(io_uring_cqe const& c) {
    unsigned h = ld(cqw(CQ_HEAD)), t = cqw(CQ_TAIL);
    if (t - h > cqn) vrt::fail("completion queue head moved past its tail");
    for (; scrub != h; ++scrub) memset(&cqes()[scrub & (cqn - 1)], 0xdd, sizeof(io_uring_cqe));   // released slots are the kernel's
    if (t - h == cqn) return false;
    io_uring_cqe& e = cqes()[t & (cqn - 1)];
    e.user_data = c.user_data; e.res = c.res; e.flags = c.flags;
    st(cqw(CQ_TAIL), t + 1);
    return true;
  }
  void post(uint64_t ud, int res) {
    io_uring_cqe c{}; c.user_data = ud; c.res = res;
    if (!overflow.empty() || !place(c)) { overflow.push_back(c); vrt::cover("completion queue overflow"); }
    waiter.notify_all();
  }
  void post_some(uint64_t ud, int res) {     // now, or a little later from the kernel's own thread
    if ((int)vrt::choose(100) < kn.delay) { io_uring_cqe c{}; c.user_data = ud; c.res = res; late.push_back(c); worker.notify_all(); }
    else post(ud, res);
  }
  void feed_reads() {
    while (evcount && !reads.empty()) {
      Read r = reads.front(); reads.erase(reads.begin());
      memcpy(r.buf, &evcount, 8); evcount = 0; post(r.ud, 8);
    }
  }
  void run() {
    std::unique_lock l(m);
    while (!closing) {
      while (!late.empty()) {
        size_t i = vrt::choose((uint32_t)late.size()); auto c = late[i]; late.erase(late.begin() + i);
        post(c.user_data, c.res);
        if (vrt::chance(30)) { l.unlock(); vrt::point(); l.lock(); if (closing) return; }
      }
      feed_reads();
      auto now = clk::now(); auto next = clk::time_point::max();
      for (size_t i = 0; i < tmos.size();) {
        if (tmos[i].at <= now) { auto t = tmos[i]; tmos.erase(tmos.begin() + i); post(t.ud, t.fail ? -ENOMEM : -ETIME); }
        else { next = std::min(next, tmos[i].at); ++i; }
      }
      if (!late.empty() || (evcount && !reads.empty())) continue;
      if (next == clk::time_point::max()) worker.wait(l); else worker.wait_until(l, next);
    }
  }
  void issue(io_uring_sqe const& e) {
    vrt::observed();
    if (!e.user_data) vrt::fail("an entry without user data was submitted");
    switch (e.opcode) {
      case IORING_OP_NOP: post_some(e.user_data, 0); break;
      case IORING_OP_READ: case IORING_OP_READV: {
        if (e.fd != EVFD || !ev_open) { post_some(e.user_data, -EBADF); break; }
        void* b = (void*)e.addr; size_t len = e.len;
        if (e.opcode == IORING_OP_READV) { iovec* v = (iovec*)e.addr; b = v->iov_base; len = v->iov_len; }
        if (len < 8) { post_some(e.user_data, -EINVAL); break; }
        reads.push_back({e.user_data, b});
        if ((int)vrt::choose(100) < kn.delay) worker.notify_all(); else feed_reads();
        break;
      }
      case IORING_OP_TIMEOUT: {
        struct { int64_t s, n; } ts; memcpy(&ts, (void*)e.addr, sizeof ts);
        if (ts.n < 0 || ts.n > 999999999 || ts.s < 0 || e.len != 1) { post_some(e.user_data, -EINVAL); break; }
        auto d = std::chrono::seconds(ts.s) + std::chrono::nanoseconds(ts.n);
        auto now = clk::now();
        auto at = e.timeout_flags & IORING_TIMEOUT_ABS ? clk::time_point(d) : now + d;
        if (at <= now && vrt::chance(50)) post(e.user_data, -ETIME);
        else { tmos.push_back({e.user_data, at, (int)vrt::choose(100) < kn.fail_timeouts}); worker.notify_all(); }
        break;
      }
      case IORING_OP_ASYNC_CANCEL: {
        uint64_t target = e.addr; int found = 0;
        for (size_t i = 0; i < tmos.size() && !found; i++) if (tmos[i].ud == target) { tmos.erase(tmos.begin() + i); found = 1; }
        for (size_t i = 0; i < reads.size() && !found; i++) if (reads[i].ud == target) { reads.erase(reads.begin() + i); found = 1; }
        if (found) vrt::cover("cancelled in the kernel"); else vrt::cover("cancel found nothing");
        if (found && vrt::chance(50)) { post_some(target, -ECANCELED); post_some(e.user_data, 0); }
        else { post_some(e.user_data, found ? 0 : -ENOENT); if (found) post_some(target, -ECANCELED); }
        break;
      }
      default: post_some(e.user_data, -EINVAL);
    }
  }
  int enter(unsigned to_submit, unsigned min_complete, unsigned flags) {
    std::unique_lock l(m);
    if (!ring_open) { errno = EBADF; return -1; }
    unsigned h = sqw(SQ_HEAD), t = ld(sqw(SQ_TAIL)), avail = t - h;
    if (avail > entries) vrt::fail("%u entries in a submission queue of %u", avail, entries);
    while (!overflow.empty() && place(overflow.front())) overflow.pop_front();
    if (!overflow.empty() && to_submit && vrt::chance(50)) { vrt::cover("busy: completion queue overflow"); errno = EBUSY; return -1; }
    unsigned n = std::min(to_submit, avail), done = 0;
    if (n > 1 && (int)vrt::choose(100) < kn.shortpct) { n = vrt::range(1, n - 1); vrt::cover("short submission"); }
    for (; done < n; ++done, ++h) {
      unsigned i = ((unsigned*)(sq.p + ARR))[h & (entries - 1)];
      if (i >= entries) vrt::fail("submission queue names entry %u of %u", i, entries);
      io_uring_sqe& e = ((io_uring_sqe*)sqe.p)[i];
      io_uring_sqe copy = e; memset(&e, 0xdd, sizeof e);
      issue(copy);
    }
    st(sqw(SQ_HEAD), h);
    if (done < to_submit) { return (int)done; }                  // a short submission does not wait
    if (!(flags & IORING_ENTER_GETEVENTS)) return (int)done;
    while (!overflow.empty() && place(overflow.front())) overflow.pop_front();
    while (cqw(CQ_TAIL) - ld(cqw(CQ_HEAD)) < min_complete) {
      if ((int)vrt::choose(100) < kn.eintr) { vrt::cover("interrupted wait"); if (done) return (int)done; errno = EINTR; return -1; }
      waiter.wait(l);
    }
    return (int)done;
  }
};
Kernel* K = nullptr; Knobs next_knobs;
int n_setup = 0;

}  // namespace c27k

// ------------------------------------------------------------------------------ the system calls
inline long c27_syscall(long nr, long a, io_uring_params* p) {
  using namespace c27k;
  if (nr != __NR_io_uring_setup) vrt::fail("unexpected system call %ld", nr);
  if (K) vrt::fail("second ring while the first one is open");
  if (next_knobs.failsetup == 1) { errno = ENOMEM; return -1; }
  K = new Kernel; K->kn = next_knobs;
  unsigned e = 1; while (e < (unsigned)a) e *= 2;
  K->entries = e; K->cqn = p->flags & IORING_SETUP_CQSIZE ? p->cq_entries : 2 * e;
  p->sq_entries = e; p->cq_entries = K->cqn; p->features = (K->kn.single ? IORING_FEAT_SINGLE_MMAP : 0) | IORING_FEAT_NODROP;
  p->sq_off.head = Kernel::SQ_HEAD; p->sq_off.tail = Kernel::SQ_TAIL; p->sq_off.ring_mask = Kernel::SQ_MASK; p->sq_off.array = Kernel::ARR;
  p->cq_off.head = Kernel::CQ_HEAD; p->cq_off.tail = Kernel::CQ_TAIL; p->cq_off.ring_mask = Kernel::CQ_MASK; p->cq_off.cqes = K->cqes_off();
  K->ring_open = true;
  K->th = std::thread([k = K] { k->run(); });
  return RINGFD;
}
inline long c27_syscall(long nr, int fd, unsigned to_submit, unsigned min_complete, unsigned flags, void*, int) {
  using namespace c27k;
  if (nr != __NR_io_uring_enter) vrt::fail("unexpected system call %ld", nr);
  if (!K || fd != RINGFD) { errno = EBADF; return -1; }
  return K->enter(to_submit, min_complete, flags);
}
inline int c27_eventfd(unsigned v, int) {
  using namespace c27k;
  if (!K || K->ev_open) vrt::fail("unexpected eventfd");
  if (K->kn.failsetup == 2) { errno = EMFILE; return -1; }
  std::lock_guard l(K->m);
  K->ev_open = true; K->evcount = v;
  return EVFD;
}
inline void* c27_mmap(void*, size_t n, int, int, int fd, long off) {
  using namespace c27k;
  if (!K || fd != RINGFD) { errno = EBADF; return MAP_FAILED; }
  if (K->kn.failsetup == 3 || (K->kn.failsetup == 4 && K->sq.p) || (K->kn.failsetup == 5 && K->sqe.p)) { errno = ENOMEM; return MAP_FAILED; }
  Kernel::Mem* m = off == (long)IORING_OFF_SQ_RING ? &K->sq : off == (long)IORING_OFF_CQ_RING ? &K->cq : off == (long)IORING_OFF_SQES ? &K->sqe : nullptr;
  if (!m || m->p) vrt::fail("unexpected mapping at offset %lx", off);
  size_t need = m == &K->sqe ? K->entries * sizeof(io_uring_sqe)
              : m == &K->cq || K->kn.single ? K->cqes_off() + K->cqn * sizeof(io_uring_cqe) : Kernel::ARR + K->entries * 4;
  if (n < need) vrt::fail("a ring of %zu bytes was mapped with %zu only", need, n);
  m->p = new char[n](); m->n = n;
  if (m == &K->sq) K->sqw(Kernel::SQ_MASK) = K->entries - 1;
  if (m == &K->cq || (m == &K->sq && K->kn.single)) K->cqw(Kernel::CQ_MASK) = K->cqn - 1;
  return m->p;
}
inline void c27_maybe_gone() {
  using namespace c27k;
  if (K && !K->ring_open && !K->ev_open && !K->sq.p && !K->cq.p && !K->sqe.p) { delete K; K = nullptr; }
}
inline int c27_close(int fd) {
  using namespace c27k;
  if (K && fd == RINGFD && K->ring_open) {
    { std::lock_guard l(K->m); K->closing = true; K->ring_open = false; }
    K->worker.notify_all(); K->th.join();
  } else if (K && fd == EVFD && K->ev_open) { std::lock_guard l(K->m); K->ev_open = false; }
  else vrt::fail("close of descriptor %d, which is not open", fd);
  c27_maybe_gone();
  return 0;
}
inline int c27_munmap(void* p, size_t n) {
  using namespace c27k;
  for (Kernel::Mem* m : {K ? &K->sq : nullptr, K ? &K->cq : nullptr, K ? &K->sqe : nullptr})
    if (m && m->p == p && p) {
      if (K->ring_open && K->th.joinable()) vrt::cover("unmapped before close");
      if (n != m->n) vrt::fail("a mapping of %zu bytes was unmapped with %zu", m->n, n);
      delete[] m->p; m->p = nullptr; c27_maybe_gone(); return 0;
    }
  vrt::fail("munmap of memory that is not mapped");
}
inline long c27_write(int fd, void const* b, size_t n) {
  using namespace c27k;
  if (!K || fd != EVFD || !K->ev_open || n != 8) vrt::fail("write of %zu bytes to descriptor %d", n, fd);
  uint64_t v; memcpy(&v, b, 8);
  std::lock_guard l(K->m);
  K->evcount += v;
  if ((int)vrt::choose(100) < K->kn.delay) K->worker.notify_all(); else K->feed_reads();
  return 8;
}
#define syscall(...) c27_syscall(__VA_ARGS__)
#define eventfd(...) c27_eventfd(__VA_ARGS__)
#define mmap(...) c27_mmap(__VA_ARGS__)
#define munmap(...) c27_munmap(__VA_ARGS__)
#define close(...) c27_close(__VA_ARGS__)
#define write(...) c27_write(__VA_ARGS__)
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef eventfd
#undef mmap
#undef munmap
#undef close
#undef write

namespace {
using clk = std::chrono::steady_clock;
using Ctx = exec::io_uring_context;
struct W;
enum Kind { SCHEDULE, AFTER, AT };
struct Op {
  Rec rec; W* w = nullptr; int id = 0, data = 0;
  Kind kind = SCHEDULE; clk::duration d{}; bool far = false;
  clk::time_point earliest{}, at{}, begun{};
  std::unique_ptr<ex::inplace_stop_source> src;
  vrt::cell<int> start_tid, stop_called, stop_early, fan, ctx_stop_before;
  clk::time_point done_at{};
};
struct W {
  std::unique_ptr<Ctx> ctx;
  std::vector<std::unique_ptr<Op>> ops;
  clk::time_point t0;
  vrt::cell<int> run_tid, running, stop_called, fails, pending_fans, nops;
  std::atomic<int> left{0}, stop_returned{0};
  bool keep_any = false, probe = false;
  explicit W(unsigned entries) {
    c27k::Knobs k; k.single = vrt::chance(70);
    if (vrt::chance(50)) k.shortpct = 40;
    if (vrt::chance(40)) k.eintr = 40;
    k.delay = vrt::chance(30) ? 0 : vrt::chance(50) ? 40 : 100;
    if (vrt::chance(8)) k.fail_timeouts = 30;
    fails.set(k.fail_timeouts);
    c27k::next_knobs = k;
    ctx = std::make_unique<Ctx>(entries);
    run_tid.set(-1);
    t0 = clk::now();
  }
  ~W() { ctx.reset(); if (c27k::K) vrt::fail("destroying the context left a descriptor or mapping open"); }
  Op* make(Kind k, clk::duration d, bool stoppable);
  Op* random(bool far_ok);
};
unsigned small() { return vrt::chance(40) ? 1 : vrt::chance(50) ? 4 : 16; }
void fired(Rec*) noexcept;
Op* W::make(Kind k, clk::duration d, bool stoppable) {
  Op* o;
  { vrt::quiet q; ops.push_back(std::make_unique<Op>()); o = ops.back().get(); o->id = (int)ops.size(); if (stoppable) o->src = std::make_unique<ex::inplace_stop_source>(); }
  o->w = this; o->kind = k; o->d = d; o->far = d >= 30min;
  o->rec.name = k == SCHEDULE ? "schedule" : k == AFTER ? "schedule_after" : "schedule_at"; o->rec.user = o; o->rec.after = fired;
  o->rec.mode = vrt::chance(50) ? SELF : vrt::chance(60) ? HANDOFF : KEEP;
  left.fetch_add(1, std::memory_order_relaxed);
  auto sch = ctx->get_scheduler();
  TokEnv e{o->src ? o->src->get_token() : ex::inplace_stop_token{}};
  if (k == SCHEDULE) mon::connect(o->rec, ex::schedule(sch), e);
  else if (k == AFTER) mon::connect(o->rec, exec::schedule_after(sch, d), e);
  else { { vrt::quiet q; o->at = clk::now() + d; } mon::connect(o->rec, exec::schedule_at(sch, o->at), e); }
  return o;
}
Op* W::random(bool far_ok) {
  Kind k = vrt::chance(35) ? SCHEDULE : vrt::chance(60) ? AFTER : AT;
  bool st = vrt::chance(60);
  clk::duration d = 0s;
  if (k != SCHEDULE) d = far_ok && vrt::chance(50) ? clk::duration(1h) : vrt::chance(15) ? clk::duration(-1500ms) : vrt::chance(15) ? clk::duration(2500ms) : clk::duration(std::chrono::milliseconds(vrt::choose(5)));
  return make(k, d, st);
}
void start(Op* o) {
  o->data = 900 + o->id; o->start_tid.set(vrt::tid());
  { vrt::quiet q; o->begun = clk::now(); o->earliest = o->kind == AFTER ? clk::now() + o->d : o->at; }
  if (o->w->stop_returned.load(std::memory_order_acquire)) o->ctx_stop_before.set(1);
  o->rec.start();
}
// requests the op's stop; early: while it is certainly pending far from its deadline
void stop(Op* o, bool before = false) {   // before: ordered before the operation's start
  if (!o->src) return;
  o->stop_called.set(1);
  if (before) o->rec.stop_before_start.set(1);
  bool early; { vrt::quiet q; early = !o->rec.done() && o->far; }
  o->src->request_stop();
  vrt::quiet q; if (early) o->stop_early.set(1);
}
void stop(W& w) {
  w.stop_called.set(1);
  if (w.ctx->request_stop()) vrt::fail("request_stop reported an error");
  w.stop_returned.store(1, std::memory_order_release);
  if (!w.ctx->stop_requested()) vrt::fail("stop_requested is false after request_stop");
}
void fired(Rec* r) noexcept {
  Op* o = (Op*)r->user; W& w = *o->w;
  bool onrun;
  {
    vrt::quiet q;
    auto now = clk::now(); o->done_at = now;
    int ch = r->ch.get(); onrun = w.running.get() && vrt::tid() == w.run_tid.get();
    bool ctxstop = w.stop_called.get(), stopped = o->stop_called.get() || ctxstop;
    if (ch == VALUE) {
      if (!onrun) vrt::fail("%s completed with a value on thread %d; the context runs on %d", r->name, vrt::tid(), w.run_tid.get());
      if (o->kind != SCHEDULE && now < o->earliest) vrt::fail("%s completed %ld ns before its deadline", r->name, (long)(o->earliest - now).count());
      if (o->rec.stop_before_start.get()) vrt::fail("%s completed with a value although its stop was requested before it started", r->name);
      if (o->ctx_stop_before.get()) vrt::fail("%s completed with a value although it was started after the context was asked to stop", r->name);
      if (!o->far && now - o->begun >= 30min) vrt::fail("%s completed an hour late", r->name);
      if (o->far && now - o->begun >= 30min && stopped) vrt::fail("%s was asked to stop but waited for its far deadline", r->name);
    } else if (ch == STOPPED) {
      if (!stopped) vrt::fail("%s completed with stopped although nobody asked", r->name);
      if (!onrun && !ctxstop) vrt::fail("%s completed with stopped on thread %d; the context runs on %d", r->name, vrt::tid(), w.run_tid.get());
      if (!onrun) vrt::cover("stopped away from the run thread");
      if (o->far && now - o->begun >= 30min) vrt::fail("%s was stopped, but only when its far deadline was reached", r->name);
    } else if (!w.fails.get() || o->kind == SCHEDULE) vrt::fail("%s completed with an error", r->name);
    else vrt::cover("timeout failed in the kernel");
  }
  if (o->data != 900 + o->id) vrt::fail("what the submitter wrote before start is not visible when the operation completes");
  if (onrun && !w.ctx->is_running()) vrt::fail("is_running is false inside a completion on the run thread");
  if (onrun && w.probe && vrt::chance(50)) {
    // a second run() is refused, exactly once
    vrt::cover("second run refused");
    if (vrt::chance(50)) {
      bool threw = false;
      try { if (vrt::chance(50)) w.ctx->run_until_stopped(); else w.ctx->run_until_empty(); } catch (std::runtime_error&) { threw = true; }
      if (!threw) vrt::fail("running a context that is running was not refused");
    } else {
      Rec rr; rr.name = "nested run"; rr.mode = KEEP;
      mon::connect(rr, w.ctx->run(exec::until::empty), TokEnv{});
      rr.start();
      if (!rr.done() || rr.ch.get() != ERROR) vrt::fail("run() on a running context completed with %s instead of an error", rr.done() ? chname(rr.ch.get()) : "nothing");
    }
  }
  if (o->fan.get() > 0) {
    int k = o->fan.get(); o->fan.set(0);
    for (int i = 0; i < k; i++) { Op* c = w.random(false); if (vrt::chance(30)) c->fan.set(1); if (c->src && vrt::chance(20)) stop(c, true); vrt::cover("started from a completion"); start(c); }
  }
  w.left.fetch_sub(1, std::memory_order_acq_rel); w.left.notify_all();
}
void wait_all(W& w) { int x; while ((x = w.left.load(std::memory_order_acquire)) != 0) w.left.wait(x, std::memory_order_acquire); }
void finish(W& w, const char* when) {
  for (auto& o : w.ops) {
    if (o->rec.started.get() && !o->rec.done()) vrt::fail("%s: %s (%s%s) never completed", when, o->rec.name, o->far ? "far away" : "near", o->stop_called.get() ? ", stop requested" : "");
    if (o->stop_early.get() && o->rec.ch.get() == VALUE) vrt::fail("%s completed with a value although it was asked to stop long before its deadline", o->rec.name);
  }
  for (auto& o : w.ops) { if (o->rec.started.get()) o->rec.finish(); o->rec.destroy(); }
}
enum How { UNTIL_STOPPED, UNTIL_EMPTY, SENDER_STOPPED, SENDER_EMPTY };
// runs the context on this thread
void run_ctx(W& w, How how, ex::inplace_stop_token tok = {}) {
  w.run_tid.set(vrt::tid()); w.running.set(1);
  if (how == UNTIL_STOPPED) w.ctx->run_until_stopped();
  else if (how == UNTIL_EMPTY) w.ctx->run_until_empty();
  else {
    Rec r; r.name = "run()"; r.mode = vrt::chance(50) ? KEEP : SELF;
    mon::connect(r, w.ctx->run(how == SENDER_EMPTY ? exec::until::empty : exec::until::stopped), TokEnv{tok});
    r.start();
    if (!r.done()) vrt::fail("run() returned from start without completing");
    if (r.ch.get() == ERROR) vrt::fail("run() completed with an error");
    if (r.ch.get() == STOPPED && !w.stop_called.get()) vrt::fail("run() completed with stopped although nobody asked");
    if (r.ch.get() == VALUE && w.stop_returned.load(std::memory_order_acquire) && how == SENDER_STOPPED) vrt::fail("run() completed with a value after a stop request");
  }
  w.running.set(0); w.run_tid.set(-1);
}
void count(W& w) { int v = 0, s = 0; for (auto& o : w.ops) { v += o->rec.ch.get() == VALUE; s += o->rec.ch.get() == STOPPED; } vrt::outcome("%d values %d stopped", v, s); }

// submitters on several threads while the context runs; it is asked to stop once everything (or nothing) is done
void service(int S, int P, bool stops, bool abrupt, bool fan) {
  Run run; W w(small()); w.probe = vrt::chance(20);
  std::vector<std::vector<Op*>> per(S); std::vector<Op*> st;
  for (int s = 0; s < S; s++) for (int i = 0; i < P; i++) {
    Op* o = w.random(abrupt || stops);
    if (o->far && !abrupt && !o->src) { o->src = nullptr; }
    if (fan && vrt::chance(40)) o->fan.set(vrt::range(1, 3));
    per[s].push_back(o); if (o->src) st.push_back(o);
    if (o->src && stops && vrt::chance(15)) { stop(o, true); vrt::cover("stopped before start"); }
  }
  bool far_alone = false;
  for (auto& o : w.ops) if (o->far && !o->src) far_alone = true;
  How how = vrt::chance(60) ? UNTIL_STOPPED : SENDER_STOPPED;
  ex::inplace_stop_source rs;
  bool via_token = how == SENDER_STOPPED && vrt::chance(50);
  if (vrt::chance(30)) for (Op* o : per[0]) { start(o); vrt::cover("submitted before running"); }
  std::thread runner([&] { run_ctx(w, how, rs.get_token()); });
  std::vector<std::thread> th;
  for (int s = 0; s < S; s++) th.emplace_back([&w, &v = per[s]] {
    for (Op* o : v) { if (o->rec.started.get()) continue; if (vrt::chance(25)) std::this_thread::sleep_for(std::chrono::milliseconds(vrt::choose(4))); start(o); }
  });
  std::thread stopper;
  if (stops && !st.empty()) stopper = std::thread([&st] {
    for (size_t i = st.size(); i > 1; i--) std::swap(st[i - 1], st[vrt::choose((uint32_t)i)]);
    for (Op* o : st) { if (vrt::chance(30)) std::this_thread::sleep_for(std::chrono::milliseconds(vrt::choose(4))); if (o->far || vrt::chance(60)) stop(o); }
  });
  auto stopctx = [&] { if (via_token) { w.stop_called.set(1); rs.request_stop(); w.stop_returned.store(1, std::memory_order_release); vrt::cover("stopped by the token of run()"); } else stop(w); };
  if (abrupt) { if (vrt::chance(50)) std::this_thread::sleep_for(std::chrono::milliseconds(vrt::choose(5))); stopctx(); }
  for (auto& t : th) t.join();
  if (stopper.joinable()) stopper.join();
  if (!abrupt) { wait_all(w); stopctx(); }
  runner.join();
  finish(w, "the context was stopped and has returned");
  if (!far_alone || abrupt) { vrt::quiet q; if (clk::now() - w.t0 > 30min) vrt::fail("stopping waited for a deadline that is an hour away"); }
  // a stopped context refuses: inline, as stopped
  if (vrt::chance(50)) {
    Op* o = w.random(true);
    start(o);
    if (!o->rec.done() || o->rec.ch.get() != STOPPED) vrt::fail("%s started on a stopped context: %s", o->rec.name, o->rec.done() ? chname(o->rec.ch.get()) : "nothing");
    vrt::cover("refused after stop");
    finish(w, "refused");
  }
  count(w);
}
VRT_SCENARIO_F(service_1, vrt::F_BIG, 8) { service(1, vrt::range(1, 6), false, false, true); }
VRT_SCENARIO_F(service_n, vrt::F_BIG, 10) { service(vrt::range(2, 3), vrt::range(1, 3), false, false, vrt::chance(40)); }
VRT_SCENARIO_F(service_stops, vrt::F_BIG, 16) { service(vrt::range(1, 2), vrt::range(1, 3), true, false, vrt::chance(20)); }
VRT_SCENARIO_F(service_abrupt, vrt::F_BIG, 16) { service(vrt::range(1, 2), vrt::range(1, 3), vrt::chance(50), true, vrt::chance(30)); }

// run until empty, several times
void batches(int rounds, bool stops) {
  Run run; W w(small()); w.probe = vrt::chance(20);
  for (int r = 0; r < rounds; r++) {
    int n = vrt::choose(vrt::chance(20) ? 12 : 4);
    std::vector<Op*> v, st;
    for (int i = 0; i < n; i++) { Op* o = w.random(false); if (vrt::chance(30)) o->fan.set(vrt::range(1, 2)); v.push_back(o); if (o->src) st.push_back(o); }
    if (stops) for (Op* o : st) if (vrt::chance(20)) stop(o, true);
    bool other = vrt::chance(30);
    if (other) { std::thread t([&] { for (Op* o : v) start(o); }); t.join(); } else for (Op* o : v) start(o);
    std::thread stopper;
    if (stops && !st.empty()) stopper = std::thread([&st] { for (Op* o : st) if (vrt::chance(50)) stop(o); });
    run_ctx(w, vrt::chance(70) ? UNTIL_EMPTY : SENDER_EMPTY);
    for (auto& o : w.ops) if (o->rec.started.get() && !o->rec.done()) vrt::fail("run_until_empty returned while a %s started before it was outstanding", o->rec.name);
    if (stopper.joinable()) stopper.join();
    finish(w, "run_until_empty returned");
    vrt::cover(r ? "ran empty again" : "ran empty");
    { vrt::quiet q; w.ops.clear(); }
  }
  vrt::outcome("%d rounds", rounds);
}
VRT_SCENARIO_F(batch_once, vrt::F_BIG | vrt::F_SEQ, 6) { batches(1, false); }
VRT_SCENARIO_F(batch_again, vrt::F_BIG, 8) { batches(vrt::range(2, 4), false); }
VRT_SCENARIO_F(batch_stops, vrt::F_BIG, 10) { batches(vrt::range(1, 3), true); }

// asked to stop before it runs, and around the end of a run; reset and start over
VRT_SCENARIO_F(stop_reset, vrt::F_BIG, 12) {
  Run run; W w(small());
  int rounds = vrt::range(1, 3);
  for (int r = 0; r < rounds; r++) {
    int n = vrt::choose(4); std::vector<Op*> v;
    for (int i = 0; i < n; i++) { Op* o = w.random(true); if (vrt::chance(20)) o->fan.set(1); v.push_back(o); }
    bool early = vrt::chance(50);
    if (early) { stop(w); vrt::cover("stopped before running"); }
    std::thread t([&] { for (Op* o : v) start(o); });
    if (vrt::chance(50)) { t.join(); }
    std::thread s2; if (!early) s2 = std::thread([&] { if (vrt::chance(50)) std::this_thread::sleep_for(1ms); stop(w); });
    run_ctx(w, vrt::chance(50) ? UNTIL_STOPPED : SENDER_STOPPED);
    if (t.joinable()) t.join();
    if (s2.joinable()) s2.join();
    finish(w, "run_until_stopped returned");
    { vrt::quiet q; w.ops.clear(); if (clk::now() - w.t0 > 30min) vrt::fail("stopping waited for a deadline that is an hour away"); }
    w.ctx->reset(); w.stop_called.set(0); w.stop_returned.store(0, std::memory_order_release);
    if (w.ctx->stop_requested()) vrt::fail("stop_requested is true after reset");
    vrt::cover("reset");
    vrt::quiet q; w.t0 = clk::now();
  }
  // after a reset the context works as new
  int n = vrt::choose(4); for (int i = 0; i < n; i++) start(w.random(false));
  run_ctx(w, UNTIL_EMPTY);
  for (auto& o : w.ops) if (!o->rec.done()) vrt::fail("run_until_empty returned while a %s was outstanding", o->rec.name);
  finish(w, "run_until_empty returned"); count(w);
}
// finish(): returns once what is outstanding has completed
VRT_SCENARIO_F(finish_run, vrt::F_BIG, 6) {
  Run run; W w(small());
  int rounds = vrt::range(1, 2);
  for (int r = 0; r < rounds; r++) {
    std::vector<Op*> v; int n = vrt::choose(4); for (int i = 0; i < n; i++) v.push_back(w.random(false));
    std::thread runner([&] { run_ctx(w, UNTIL_STOPPED); });
    for (Op* o : v) start(o);
    if (vrt::chance(50)) wait_all(w);
    w.ctx->finish(); vrt::cover("finish()");
    runner.join();
    bool left = false; for (auto& o : w.ops) if (!o->rec.done()) left = true;
    if (left) { vrt::cover("finish() overtook a submission"); run_ctx(w, UNTIL_EMPTY); }
    finish(w, "finish"); vrt::quiet q; w.ops.clear();
  }
}
// a context that cannot be set up throws and releases what it had
VRT_SCENARIO_F(setup_fails, vrt::F_SEQ, 2) {
  Run run; c27k::Knobs k; k.failsetup = vrt::range(1, 5); k.single = k.failsetup == 5 ? false : vrt::chance(50); c27k::next_knobs = k;
  bool threw = false;
  try { Ctx c(vrt::range(0, 9)); } catch (std::system_error&) { threw = true; vrt::cover("setup failed"); }
  if (!threw) vrt::fail("failure %d to set up the ring was not reported", k.failsetup);
  if (c27k::K) vrt::fail("a context that failed to set up (%d) left a descriptor or mapping open", k.failsetup);
}
}  // namespace

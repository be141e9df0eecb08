#pragma once
// bulk operations: the function, its oracle, shapes and policies (C11, C28)
#include "mon.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/thread_pool_base.hpp>
#include <condition_variable>
#include <deque>
using namespace mon;

namespace mon {
struct Slots {                                   // call i writes slot i; whoever gets the completion reads them all
  int a[24] = {};
  friend int num(Slots const& s) { int n = 0; for (int i = 0; i < 24; i++) n += s.a[i] == 7 * i + 1; return n; }
};
}  // namespace mon
namespace {
struct BulkW {
  long shape = 0; int throw_at = -1, throw_at2 = -1, alg = 0; bool nothrow = false, pool = false;
  vrt::cell<int> hit[24], inflight, calls, thrown, workers_seen, sync_only;
  vrt::cell<void*> addr; vrt::cell<int> outsider[40];
  Rec rec;
};
int add1(int a) { return a; }
template <bool NX> struct Fn : Tracked {
  BulkW* w;
  explicit Fn(BulkW* x) : w(x) {}
  void touch(long i, NVal& v, Slots& s) const noexcept(NX) {
    if (i < 0 || i >= w->shape) vrt::fail("called with index %ld, the shape is %ld", i, w->shape);
    if (w->hit[i].inc() != 1) vrt::fail("index %ld called twice", i);
    if (v.get() != 77) vrt::fail("the value passed to the function is %d, not the predecessor's", v.get());
    if (!w->addr.get()) w->addr.set(&s); else if (w->addr.get() != &s) vrt::fail("calls were given different copies of the value");
    s.a[i] = 7 * (int)i + 1;
    vrt::observed();
    if constexpr (!NX) if (i == w->throw_at || i == w->throw_at2) { w->thrown.inc(); vrt::cover("bulk function threw"); throw Boom{200 + (int)i}; }
  }
  struct in { BulkW* w; explicit in(BulkW* x) : w(x) { w->calls.inc(); if (w->rec.done()) vrt::fail("the function is called after the operation completed"); w->inflight.inc(); if (w->pool && w->outsider[vrt::tid()].get()) vrt::fail("the function ran outside the pool"); } ~in() { w->inflight.inc(-1); } };
  template <class I> void operator()(I i, NVal& v, Slots& s) const noexcept(NX) { chk(); in g(w); touch((long)i, v, s); vrt::point(); }
  template <class I> void operator()(I b, I e, NVal& v, Slots& s) const noexcept(NX) {
    if (w->sync_only.get()) for (int k = vrt::choose(40); k--;) vrt::point();
    chk(); in g(w);
    if (b < I(0) || e <= b || (long)e > w->shape) vrt::fail("chunk [%ld,%ld) of shape %ld", (long)b, (long)e, w->shape);
    for (; b != e; ++b) touch((long)b, v, s);
    vrt::point();
  }
};
void done(Rec* r) noexcept {
  BulkW& w = *(BulkW*)r->user;
  if (w.inflight.get()) vrt::fail("completed while %d calls are still running", w.inflight.get());
  if (r->ch.get() == VALUE) {
    if (w.thrown.get()) vrt::fail("a call threw, yet the operation completed with value");
    for (long i = 0; i < w.shape; i++) if (w.hit[i].get() != 1) vrt::fail("completed with value although index %ld of %ld was not called", i, w.shape);
    if (r->n.get() != 2 || r->v[0].get() != 77) vrt::fail("the predecessor's values were not passed on");
    if (r->v[1].get() != w.shape + (int)(w.shape == 0 ? 0 : 0)) vrt::fail("%d of %ld effects of the calls are visible in the delivered value", r->v[1].get(), w.shape);
  }
}
// alg: 0 bulk 1 bulk_chunked 2 bulk_unchunked
template <bool NX, class Pol, class I, class Prev> void go(BulkW& w, Prev prev, Pol pol, I shape, std::shared_ptr<void> = {}) {
  Fn<NX> f(&w);
  switch (w.alg) {
    case 0: connect(w.rec, std::move(prev) | ex::bulk(pol, shape, f), TokEnv{}); break;
    case 1: connect(w.rec, std::move(prev) | ex::bulk_chunked(pol, shape, f), TokEnv{}); break;
    default: connect(w.rec, std::move(prev) | ex::bulk_unchunked(pol, shape, f), TokEnv{}); break;
  }
}
template <bool NX, class Prev> void pick(BulkW& w, Prev prev) {
  switch (vrt::choose(4)) {
    case 0: go<NX>(w, std::move(prev), ex::seq, (int)w.shape); break;
    case 1: go<NX>(w, std::move(prev), ex::par_unseq, (std::size_t)w.shape); break;
    case 2: go<NX>(w, std::move(prev), ex::par, (unsigned char)w.shape); break;
    default: go<NX>(w, std::move(prev), ex::par, (int)w.shape); break;
  }
}
auto source(Leaf& l) { return leaf_sender{&l} | ex::then([](Val v) noexcept { Slots s; return std::make_pair(NVal(v.get()), s); }) | ex::let_value([](std::pair<NVal, Slots>& p) noexcept { return ex::just(NVal(p.first), p.second); }); }
void plan(BulkW& w, Leaf& l, int threads) {
  w.shape = vrt::chance(12) ? 0 : vrt::chance(30) ? vrt::range(std::max(1, threads - 1), threads + 1) : vrt::range(1, vrt::chance(80) ? 9 : 24);
  w.alg = vrt::choose(3);
  w.nothrow = vrt::chance(30);
  if (!w.nothrow && vrt::chance(50)) { w.throw_at = vrt::choose(w.shape + 1); if (vrt::chance(50)) w.throw_at2 = vrt::choose(w.shape + 1); }
  l.how = vrt::chance(80) ? VALUE : vrt::range(ERROR, STOPPED); l.val = l.how == VALUE ? 77 : 30 + vrt::choose(2);
  l.where = vrt::chance(70) ? INLINE : EXTERN;
  w.rec.user = &w; w.rec.after = done; w.rec.name = "bulk operation"; w.rec.mode = vrt::chance(60) ? SELF : HANDOFF;
  vrt::describe("alg=%d shape=%ld throw_at=%d,%d source=%s", w.alg, w.shape, w.throw_at, w.throw_at2, chname(l.how));
}
void verdict(BulkW& w, Leaf& l) {
  Rec& r = w.rec;
  if (l.how != VALUE) { if (w.calls.get()) vrt::fail("the function was called although the predecessor completed with %s", chname(l.how)); expect(r, l.how, l.val); }
  else if (w.thrown.get()) {
    if (r.ch.get() != ERROR) vrt::fail("a call threw, the operation completed with %s", chname(r.ch.get()));
    int c = r.code.get() - 200;
    if ((c != w.throw_at && c != w.throw_at2) || c < 0 || c >= w.shape || !w.hit[c].get()) vrt::fail("the delivered exception %d was not thrown", r.code.get());
  } else if (r.ch.get() != VALUE) vrt::fail("nothing threw, the operation completed with %s(%d)", chname(r.ch.get()), r.code.get());
  vrt::outcome("%s", chname(r.ch.get()));
}
}  // namespace

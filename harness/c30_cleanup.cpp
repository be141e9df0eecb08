// C30: finally, scope guards, frame allocators and memory-resource adaptors.
#include "mon.hpp"
#include <exec/finally.hpp>
#include <exec/function.hpp>
#include <exec/get_frame_allocator.hpp>
#include <exec/scope.hpp>
#include <exec/__frame_allocator.hpp>
#include <exec/__memory_resource_adaptor.hpp>
#include <algorithm>
#include <map>
#include <memory_resource>
using namespace mon;

namespace {
// ---------------------------------------------------------------------------------------------
// finally.  A node is a leaf (index), or finally(source, clean-up).
struct Res { int ch, code, val; };
struct Fin {
  Scene sc; int boom = 0; vrt::cell<int> src_err;
  explicit Fin(int k) : sc(k, 55) { if (vrt::chance(25)) boom = 77; }
  Res leaf(int i) { Leaf& l = sc.L(i); return {l.how_done.get(), l.val, l.val}; }
  bool ran(int i) { return sc.L(i).starts.get(); }
  // source s (leaf) has ended: what its clean-up leaf c must have done
  void order(int s, int c) {
    Leaf &a = sc.L(s), &b = sc.L(c);
    if (b.starts.get() > 1) vrt::fail("the clean-up %s ran %d times", b.name, b.starts.get());
    if (b.starts.get() && !a.completes.get()) vrt::fail("the clean-up ran although its source never completed");
  }
  void deliver(Res want, bool threw) {
    Rec& r = sc.rec;
    if (threw) { for (auto& l : sc.lv) if (l->starts.get()) vrt::fail("connect threw after having started a child"); vrt::outcome("threw"); return; }
    bool thrown = boom && G.thrown.get();
    if (thrown && r.ch.get() == ERROR && r.code.get() == boom) { vrt::outcome("exception"); return; }
    if (r.ch.get() != want.ch || (want.ch == ERROR && r.code.get() != want.code)) vrt::fail("completed with %s(%d), expected %s(%d)", chname(r.ch.get()), r.code.get(), chname(want.ch), want.code);
    if (want.ch == VALUE) { if (want.val < 0 ? r.n.get() != 0 : (r.n.get() != 1 || r.v[0].get() != want.val)) vrt::fail("completed with %d values (first %d), expected %d", r.n.get(), r.v[0].get(), want.val); }
    vrt::outcome("%s", chname(want.ch)); vrt::observed();
  }
  void prep() { G.moves_throw = boom && vrt::chance(60); }
  template <class F> bool go(F make) {
    prep();
    try { int at = vrt::choose(2); if (boom && at == 0) arm(vrt::range(1, 8), boom); auto s = make(); sc.prepare(std::move(s)); if (boom && at == 1) arm(vrt::range(1, 6), boom); }
    catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); return true; }
    sc.drive(); return false;
  }
};
Fin* F; int src_of[8];                            // leaf i's clean-up duty: source leaf, or -1
void cleanup_starts(Leaf* l, ex::inplace_stop_token) {
  for (int i = 0; i < F->sc.n(); i++) if (&F->sc.L(i) == l && src_of[i] >= 0) {
    Leaf& s = F->sc.L(src_of[i]);
    if (!s.completes.get()) vrt::fail("the clean-up begins before its source has completed");
    if (s.live_ops.get()) vrt::fail("the clean-up begins while the operation of its source is still alive");
  }
  if (F->sc.n() == 3 && src_of[2] == 0 && l == &F->sc.L(2) && F->sc.L(1).live_ops.get()) vrt::fail("the outer clean-up begins while the inner operation is still alive");
  if (F->sc.rec.done()) vrt::fail("the clean-up begins after the operation has completed");
}
void watch(Fin& f, std::initializer_list<int> src) { F = &f; int i = 0; for (int s : src) { src_of[i] = s; if (s >= 0 && f.sc.stop_mode != Scene::IN_START) f.sc.L(i).on_start = cleanup_starts; i++; } }
auto clean(Fin& f, int i) { return f.sc.s(i) | ex::then([own = Val(3)](Val v) { own.chk("used"); (void)v.get(); }); }
// a source whose error completions (which never throw when stored) are noted
auto source(Fin& f, int i) {
  return f.sc.s(i) | ex::then([](Val v) { return v; })
       | ex::let_error([&f](auto& e) noexcept { f.src_err.set(1); if constexpr (std::is_same_v<std::decay_t<decltype(e)>, Err>) return ex::just_error(Err(std::move(e))); else return ex::just_error(std::exception_ptr(e)); });
}
// finally(s, c) with one source leaf s and one clean-up leaf c
Res fin(Fin& f, Res s, int c, bool threw) {
  if (threw) return s;
  bool thrown = f.boom && G.thrown.get();
  if (!f.ran(c)) { if (!thrown || f.src_err.get()) vrt::fail("the clean-up did not run"); return {ERROR, f.boom, 0}; }
  Leaf& l = f.sc.L(c);
  if (l.how_done.get() != VALUE) return {l.how_done.get(), l.val, 0};
  return s;
}
VRT_SCENARIO_F(finally_one, 0, 14) {
  Fin f(2); watch(f, {-1, 0}); bool t;
  switch (vrt::choose(3)) {
    case 0: t = f.go([&] { return exec::finally(f.sc.s(0), clean(f, 1)); }); break;
    case 1: t = f.go([&] { return f.sc.s(0) | exec::finally(clean(f, 1)); }); break;
    default: t = f.go([&] { return exec::finally(source(f, 0), clean(f, 1)); });
  }
  f.order(0, 1); f.deliver(fin(f, f.leaf(0), 1, t), t);
}
VRT_SCENARIO_F(finally_lvalue, 0, 6) {
  Fin f(2); watch(f, {-1, 0}); bool threw = false;
  try { auto snd = exec::finally(source(f, 0), clean(f, 1)); f.prep(); if (f.boom) arm(vrt::range(1, 6), f.boom); f.sc.prepare(snd); }
  catch (Boom const&) { threw = true; }
  if (!threw) f.sc.drive();
  f.order(0, 1); f.deliver(fin(f, f.leaf(0), 1, threw), threw);
}
VRT_SCENARIO_F(finally_outer, 0, 8) {            // finally(finally(0, 1), 2)
  Fin f(3); watch(f, {-1, 0, 0});
  bool t = f.go([&] { return exec::finally(exec::finally(source(f, 0), clean(f, 1)), clean(f, 2)); });
  bool thrown = f.boom && G.thrown.get();
  Res a = fin(f, f.leaf(0), 1, t), b = a;
  if (!t) { if (!f.ran(2) && !thrown) vrt::fail("the outer clean-up did not run"); if (f.ran(2)) { b = fin(f, a, 2, t); if (f.sc.L(2).how_done.get() == VALUE && thrown) b = f.sc.rec.ch.get() == ERROR && f.sc.rec.code.get() == f.boom ? Res{ERROR, f.boom, 0} : b; } }
  f.deliver(b, t);
}
VRT_SCENARIO_F(finally_inner, 0, 8) {            // finally(0, finally(1, 2)): the clean-up has a clean-up
  Fin f(3); watch(f, {-1, 0, 1});
  bool t = f.go([&] { return exec::finally(source(f, 0), exec::finally(clean(f, 1), clean(f, 2))); });
  Res want = f.leaf(0);
  if (!t) {
    bool thrown = f.boom && G.thrown.get();
    if (!thrown && (!f.ran(1) || !f.ran(2))) vrt::fail("a clean-up did not run");
    if (f.ran(2) && f.sc.L(2).how_done.get() != VALUE) want = f.leaf(2);
    else if (f.ran(1) && f.sc.L(1).how_done.get() != VALUE) want = f.leaf(1);
  }
  f.deliver(want, t);
}
VRT_SCENARIO_F(finally_never_value, 0, 6) {      // a clean-up that has no value completion: its own completion is the result
  Fin f(2); watch(f, {-1, 0}); bool t; int how = vrt::choose(2);
  if (how == 0) t = f.go([&] { return exec::finally(source(f, 0), clean(f, 1) | ex::let_value([] { return ex::just_stopped(); })); });
  else t = f.go([&] { return exec::finally(source(f, 0), clean(f, 1) | ex::let_value([] { return ex::just_error(Err(909)); })); });
  f.order(0, 1);
  Res want = f.leaf(1); if (!t && !f.ran(1)) { if (!(f.boom && G.thrown.get())) vrt::fail("the clean-up did not run"); }
  if (want.ch == VALUE) want = how == 0 ? Res{STOPPED, 0, 0} : Res{ERROR, 909, 0};
  f.deliver(want, t);
}
VRT_SCENARIO_F(finally_data, 0, 8) {             // many and large values, references into the source's operation
  Fin f(2); watch(f, {-1, 0}); int shape = vrt::choose(3); bool t;
  struct Big { Val v; char pad[256]; };
  if (shape == 0) t = f.go([&] { return exec::finally(f.sc.s(0) | ex::let_value([](Val& v) { return ex::just(NVal(v.get()), Val(v.get() + 1), 5); }), clean(f, 1)) | ex::then([](NVal&& a, Val&& b, int c) { if (b.get() != a.get() + 1 || c != 5) vrt::fail("finally delivered other values than its source produced"); return Val(a.get()); }); });
  else if (shape == 1) t = f.go([&] { return exec::finally(f.sc.s(0) | ex::then([](Val v) { int n = v.get(); Big b{std::move(v)}; memset(b.pad, n, 256); return b; }), clean(f, 1)) | ex::then([](Big b) { for (char c : b.pad) if (c != (char)b.v.get()) vrt::fail("finally delivered other values than its source produced"); return std::move(b.v); }); });
  else t = f.go([&] { return exec::finally(f.sc.s(0) | ex::let_error([](auto&& e) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>, Err>) return ex::just_error(Err(std::move(e))); else return ex::just_error(std::exception_ptr(e)); }), clean(f, 1)); });
  f.order(0, 1); f.deliver(fin(f, f.leaf(0), 1, t), t);
}

// ---------------------------------------------------------------------------------------------
// scope guards
struct Log { int n = 0, id[64]; void add(int i) { if (n < 64) id[n++] = i; } };
struct Act { Log* l; int id; Tracked t; void operator()() && noexcept { t.chk(); l->add(id); } };
struct Act1 { Log* l; int id; Tracked t; void operator()(NVal v) && noexcept { t.chk(); if (v.get() != id) vrt::fail("a scope guard passes another argument than the one it was given"); l->add(id); } };
struct Act2 { Log* l; int id; Tracked t; void operator()(NVal v, int& r) && noexcept { t.chk(); if (v.get() != id) vrt::fail("a scope guard passes another argument than the one it was given"); r++; l->add(id); } };
struct Act3 { Log* l; int id; Tracked t; void operator()(NVal a, NVal b, int c) && noexcept { t.chk(); if (a.get() != id || b.get() != id + 1 || c != id + 2) vrt::fail("a scope guard passes its arguments in another order"); l->add(id); } };
int refs;
void guarded(Log& l, Log& want, int depth, int thr) {
  int id = 10 * depth + 1; bool off = vrt::chance(30), late = vrt::chance(50), twice = vrt::chance(20);
  auto inner = [&](auto& g) {
    if (off && !late) { g.dismiss(); if (twice) g.dismiss(); }
    if (l.n) { /* nothing may have run yet on the way down */ }
    int before = l.n;
    if (depth < 5 && vrt::chance(75)) guarded(l, want, depth + 1, thr); else if (thr) { vrt::cover("scope left by an exception"); throw Boom{thr}; }
    (void)before;
    if (off && late) g.dismiss();
  };
  struct Expect { Log& w; int id; bool& off; bool& late; ~Expect() { bool unwinding = std::uncaught_exceptions() > 0; if (!(off && (!late || !unwinding))) w.add(id); } };
  // the guard is destroyed before e notes what was expected; nested guards come first in both logs
  Expect e{want, id, off, late};
  switch (vrt::choose(4)) {
    case 0: { exec::scope_guard g{Act{&l, id}}; inner(g); break; }
    case 1: { exec::scope_guard g{Act1{&l, id}, NVal(id)}; inner(g); break; }
    case 2: { exec::scope_guard<Act2, NVal, int&> g{{Act2{&l, id}, NVal(id), refs}}; inner(g); break; }
    default: { exec::scope_guard g{Act3{&l, id}, NVal(id), NVal(id + 1), id + 2}; inner(g); break; }
  }
}
VRT_SCENARIO_F(scope_guards, vrt::F_SEQ, 6) {
  Run run; Log l, want; refs = 0; int thr = vrt::chance(40) ? 5 : 0; bool caught = false;
  try { guarded(l, want, 0, thr); } catch (Boom const&) { caught = true; }
  (void)caught;
  if (l.n != want.n) vrt::fail("%d scope guards ran their action, expected %d", l.n, want.n);
  for (int i = 0; i < l.n; i++) if (l.id[i] != want.id[i]) vrt::fail("scope guards ran in the wrong order or the wrong ones did");
  vrt::outcome("%d actions%s", l.n, caught ? " with exception" : ""); vrt::observed(l.n);
}

// ---------------------------------------------------------------------------------------------
// allocators and resources, on top of a ledger that knows every block it handed out
struct Ledger {
  struct B { size_t n, al; };
  std::map<char*, B> live; size_t total = 0; const char* name = "the underlying allocator";
  char* get(size_t n, size_t al) {
    throw_point();
    char* p = (char*)::operator new(n + 48, std::align_val_t(al < 16 ? 16 : al));
    // only as aligned as asked for: the block starts right after a byte pattern that breaks larger alignments
    size_t off = al < 32 ? vrt::range(1, 32 / al) * al : 0; if (off > 32) off = 0;
    vrt::quiet q; for (size_t i = 0; i < off; i++) p[i] = 0x5A; memset(p + off + n, 0x5A, 48 - off);
    live[p + off] = {n, al}; base[p + off] = p; total++; return p + off;
  }
  std::map<char*, char*> base;
  void put(char* p, size_t n, size_t al) noexcept {
    char* b; size_t bn;
    { vrt::quiet q;
      auto it = live.find(p);
      if (it == live.end()) vrt::fail("%s gets back a block it did not hand out", name);
      if (it->second.n != n) vrt::fail("%s gets back a block of %zu bytes that had %zu", name, n, it->second.n);
      if (it->second.al != al) vrt::fail("%s gets back a block with alignment %zu that was requested with %zu", name, al, it->second.al);
      b = base[p]; bn = n; size_t off = p - b;
      for (size_t i = 0; i < off; i++) if (b[i] != 0x5A) vrt::fail("the memory before a block was overwritten");
      for (size_t i = off + bn; i < bn + 48; i++) if (b[i] != 0x5A) vrt::fail("the memory after a block was overwritten");
      live.erase(it); base.erase(p);
    }
    ::operator delete(b, std::align_val_t(al < 16 ? 16 : al));
    vrt::observed();
  }
  ~Ledger() { if (!std::uncaught_exceptions() && !live.empty()) vrt::fail("%zu blocks were never returned to %s", live.size(), name); vrt::quiet q; live.clear(); base.clear(); }
};
template <class T> struct LA {
  using value_type = T; Ledger* l; int id = 0;
  explicit LA(Ledger* l_, int i = 0) noexcept : l(l_), id(i) {}
  template <class U> LA(LA<U> const& o) noexcept : l(o.l), id(o.id) {}
  T* allocate(size_t n) { return (T*)l->get(n * sizeof(T), alignof(T)); }
  void deallocate(T* p, size_t n) noexcept { l->put((char*)p, n * sizeof(T), alignof(T)); }
  template <class U> bool operator==(LA<U> const& o) const noexcept { return l == o.l; }
};
struct LR : std::pmr::memory_resource {
  Ledger* l; explicit LR(Ledger* l_) : l(l_) {}
  void* do_allocate(size_t n, size_t a) override { return l->get(n, a); }
  void do_deallocate(void* p, size_t n, size_t a) override { l->put((char*)p, n, a); }
  bool do_is_equal(memory_resource const& o) const noexcept override { return this == &o; }
};
// blocks handed out by the facility under test
struct User {
  struct B { char* p; size_t n, al; unsigned char c; };
  std::vector<B> v; int allocs = 0, faults = 0;
  template <class A> void add(A&& a, size_t n, size_t al) {
    char* p;
    try { p = (char*)a(n, al); } catch (Boom const&) { faults++; return; } catch (std::bad_alloc const&) { faults++; return; }
    allocs++;
    if (!p) vrt::fail("a null block was handed out");
    if ((uintptr_t)p % al) vrt::fail("a block of %zu bytes requested with alignment %zu is not aligned", n, al);
    for (B& b : v) if (p < b.p + b.n && b.p < p + n) vrt::fail("overlapping blocks were handed out");
    unsigned char c = (unsigned char)(vrt::choose(255) + 1);
    for (size_t i = 0; i < n; i++) p[i] = (char)c;
    vrt::quiet q; v.push_back({p, n, al, c});
  }
  template <class D> void drop(D&& d, int i) {
    B b = v[i]; { vrt::quiet q; v.erase(v.begin() + i); }
    for (size_t k = 0; k < b.n; k++) if ((unsigned char)b.p[k] != b.c) vrt::fail("the contents of a block changed while it was allocated");
    d(b.p, b.n, b.al); vrt::observed();
  }
};
size_t some_size() { return vrt::chance(20) ? vrt::choose(4) : vrt::chance(70) ? vrt::choose(80) : vrt::choose(600); }
size_t some_align() { return size_t(1) << (vrt::chance(80) ? vrt::choose(7) : vrt::choose(11)); }
template <class A, class D> void churn(A a, D d, bool aligned) {
  User u; int ops = vrt::range(2, 20);
  for (int i = 0; i < ops; i++) {
    if (u.v.empty() || vrt::chance(60)) { if (vrt::chance(8)) arm(1, 5); u.add(a, some_size(), aligned ? some_align() : 1); G.armed.set(0); }
    else u.drop(d, vrt::choose((unsigned)u.v.size()));
  }
  while (!u.v.empty()) u.drop(d, vrt::choose((unsigned)u.v.size()));
  vrt::outcome("%d blocks", u.allocs > 12 ? 12 : u.allocs);
}
void churn_res(std::pmr::memory_resource* r) { churn([&](size_t n, size_t al) { return r->allocate(n, al); }, [&](char* p, size_t n, size_t al) { r->deallocate(p, n, al); }, true); }
struct alignas(32) Wide { char c[32]; };

VRT_SCENARIO_F(resource_adaptors, vrt::F_SEQ, 8) {
  Run run; Ledger l, m; int how = vrt::choose(8);
  switch (how) {
    case 0: { exec::__memory_resource_adaptor_t<LA<std::byte>> r{LA<std::byte>(&l)}; churn_res(&r); if (!l.total) vrt::outcome("only faults"); break; }
    case 1: { exec::__memory_resource_adaptor_t<LA<int>> r{LA<int>(&l)}; churn_res(&r); break; }
    case 2: { exec::__memory_resource_adaptor_t<LA<Wide>> r{LA<Wide>(&l)}; churn_res(&r); break; }
    case 3: { exec::__memory_resource_adaptor_t<std::allocator<std::byte>> r{std::allocator<int>()}; churn_res(&r); break; }
    case 4: { LR u(&l); exec::__memory_resource_adaptor_t<LR*> r{&u}; if (&r != &u) vrt::fail("the adaptor of a resource is another resource"); churn_res(&r); break; }
    case 5: { LR u(&l); std::pmr::memory_resource* b = &u; exec::__memory_resource_adaptor_t<std::pmr::memory_resource*> r{b}; if (&r != b) vrt::fail("the adaptor of a resource is another resource"); churn_res(&r); break; }
    case 6: { LR u(&l); exec::__memory_resource_adaptor_t<std::pmr::polymorphic_allocator<int>> r{std::pmr::polymorphic_allocator<int>(&u)}; churn_res(&r); break; }
    default: {                                    // adaptors of adaptors
      exec::__memory_resource_adaptor_t<LA<std::byte>> a{LA<std::byte>(&l)};
      exec::__memory_resource_adaptor_t<std::pmr::polymorphic_allocator<std::byte>> b{std::pmr::polymorphic_allocator<std::byte>(&a)};
      churn_res(&b);
    }
  }
  // resources over equal allocators are equal, over different ones are not
  exec::__memory_resource_adaptor_t<LA<std::byte>> x{LA<std::byte>(&l)}, y{LA<std::byte>(&l)}, z{LA<std::byte>(&m)};
  exec::__memory_resource_adaptor_t<std::allocator<std::byte>> s{std::allocator<std::byte>()}, t{std::allocator<std::byte>()};
  if (!x.is_equal(y) || x.is_equal(z) || !s.is_equal(t) || s.is_equal(x) || x.is_equal(s)) vrt::fail("resources over the same allocator must be equal and no others");
  if (char* p = (char*)x.allocate(24, 8)) y.deallocate(p, 24, 8);   // equal resources may return each other's blocks
}
template <class A> void churn_alloc(A a) {
  A b = a;                                        // copies are interchangeable
  churn([&](size_t n, size_t) { return (void*)(vrt::chance(50) ? a : b).allocate(n ? n : 1); }, [&](char* p, size_t n, size_t) { (vrt::chance(50) ? a : b).deallocate((std::byte*)p, n ? n : 1); }, false);
}
VRT_SCENARIO_F(frame_allocators, vrt::F_SEQ, 6) {
  Run run; Ledger l; LR u(&l); size_t before = 0; (void)before; bool mine = true;
  switch (vrt::choose(6)) {
    case 0: churn_alloc(exec::__frame_allocator_t<LA<int>>(LA<int>(&l))); break;
    case 1: churn_alloc(exec::__frame_allocator_t<LA<std::byte> const&>(LA<std::byte>(&l))); break;
    case 2: churn_alloc(exec::__frame_allocator_t<LR*>(&u)); break;
    case 3: churn_alloc(exec::__frame_allocator_t<std::pmr::memory_resource*>(&u)); break;
    case 4: churn_alloc(exec::__frame_allocator_t<std::pmr::polymorphic_allocator<int>>(std::pmr::polymorphic_allocator<int>(&u))); break;
    default: { mine = false; churn_alloc(exec::__frame_allocator_t<std::allocator<int>>(std::allocator<int>())); }
  }
  if (mine && !l.total) vrt::outcome("no block");
  // rebound to a wider type
  using FA = exec::__frame_allocator_t<LR*>; (void)sizeof(FA);
  typename std::allocator_traits<FA>::template rebind_alloc<Wide> w{FA(&u)};
  size_t n = vrt::range(1, 5); Wide* p = w.allocate(n); if ((uintptr_t)p % alignof(Wide)) vrt::fail("a frame allocator hands out misaligned storage"); w.deallocate(p, n);
}

// exec::function: the frame of the hidden operation comes from the receiver's frame allocator, else its allocator
struct Bulky { Val v; char pad[300]; explicit Bulky(int x) : v(x) {} };
template <class FA, class A> struct Both { FA f; A a; FA query(exec::get_frame_allocator_t) const noexcept { return f; } A query(ex::get_allocator_t) const noexcept { return a; } };
template <class Env> struct FRcv {
  using receiver_concept = ex::receiver_tag; Rec* r; Env e;
  void set_value(int x) noexcept { Rec* q = r; q->note(VALUE, 0); q->n.set(1); q->v[0].set(x); q->complete(); }
  void set_error(std::exception_ptr p) noexcept { Rec* q = r; q->note(ERROR, code_of(p)); q->complete(); }
  void set_stopped() noexcept { Rec* q = r; q->note(STOPPED, 0); q->complete(); }
  Env get_env() const noexcept { return e; }
};
template <class F, class Env> void run_fn(F&& f, Env e, Ledger& want, Ledger* other, int x, bool big, bool mine) {
  Rec rec; rec.mode = vrt::chance(50) ? KEEP : SELF; bool threw = false;
  size_t t0 = want.total, o0 = other ? other->total : 0; long b0 = vrt::allocs();
  try { using S = std::decay_t<F>; rec.op = new OpOf<S, FRcv<Env>>(S((F&&)f), FRcv<Env>{&rec, e}); }
  catch (Boom const&) { threw = true; }
  (void)b0;
  if (mine && big && want.total == t0 && !threw) vrt::fail("the frame of a function's operation was not taken from the receiver's allocator");
  if (other && other->total != o0) vrt::fail("the frame of a function's operation was taken from the receiver's allocator although it has a frame allocator");
  if (!threw) {
    rec.start(); if (!rec.done()) vrt::fail("not completed");
    if (rec.ch.get() == VALUE) { if (rec.v[0].get() != x) vrt::fail("a function delivered %d, expected %d", rec.v[0].get(), x); }
    else if (rec.ch.get() != ERROR || !G.thrown.get() || rec.code.get() != 77) vrt::fail("a function completed with %s(%d)", chname(rec.ch.get()), rec.code.get());
    if (rec.ch.get() == VALUE && G.thrown.get()) vrt::fail("an exception was lost");
  } else if (!G.thrown.get()) vrt::fail("connect threw by itself");
  rec.destroy(); vrt::outcome("%s", threw ? "threw" : chname(rec.ch.get())); vrt::observed();
  if (!want.live.empty()) vrt::fail("the frame of a function's operation outlives the operation");
}
VRT_SCENARIO_F(function_frames, vrt::F_SEQ, 8) {
  Run run; Ledger l, m; LR u(&l); l.name = "the frame allocator"; m.name = "the allocator"; int x = vrt::range(1, 50); bool big = vrt::chance(60);
  auto arg = [&] { return Val(x); };
  auto with = [&](auto env, Ledger& want, Ledger* other, bool mine = true) {
    auto body = [&](auto&& fn) {
      if (vrt::chance(30)) arm(vrt::range(1, 6), 77);
      run_fn(std::move(fn), env, want, other, x, big, mine);
    };
    try {
      if (big) body(exec::function<int(Val)>(arg(), [](Val v) { return ex::just(Bulky(v.get())) | ex::then([](Bulky b) { return b.v.get(); }); }));
      else body(exec::function<int(Val)>(arg(), [](Val v) { return ex::just(v.get()) | ex::then([](int i) { throw_point(); return i; }); }));
    } catch (Boom const&) { vrt::outcome("threw early"); }
  };
  switch (vrt::choose(9)) {
    case 0: with(ex::env<>{}, l, nullptr, false); break;
    case 1: with(ex::prop(ex::get_allocator, LA<int>(&l)), l, nullptr); break;
    case 2: with(ex::prop(exec::get_frame_allocator, LA<std::byte>(&l)), l, nullptr); break;
    case 3: with(Both<LA<std::byte>, LA<int>>{LA<std::byte>(&l), LA<int>(&m)}, l, &m); break;
    case 4: with(ex::prop(exec::get_frame_allocator, &u), l, nullptr); break;
    case 5: with(ex::prop(exec::get_frame_allocator, (std::pmr::memory_resource*)&u), l, nullptr); break;
    case 6: with(ex::prop(exec::get_frame_allocator, std::pmr::polymorphic_allocator<std::byte>(&u)), l, nullptr); break;
    case 7: with(ex::prop(ex::get_allocator, std::pmr::polymorphic_allocator<int>(&u)), l, nullptr); break;
    default: with(Both<std::pmr::polymorphic_allocator<std::byte>, LA<std::byte>>{std::pmr::polymorphic_allocator<std::byte>(&u), LA<std::byte>(&m)}, l, &m); break;
  }
}
// the declared query is get_frame_allocator itself: passed through, by the declared type
VRT_SCENARIO_F(function_declared, vrt::F_SEQ, 4) {
  Run run; Ledger l; LR u(&l); int x = vrt::range(1, 50);
  using PA = std::pmr::polymorphic_allocator<std::byte>;
  auto fn = [](Val v) { return ex::just(Bulky(v.get())) | ex::then([](Bulky b) { throw_point(); return b.v.get(); }); };
  exec::function<int(Val), exec::queries<PA(exec::get_frame_allocator_t) noexcept>> f(Val(x), fn);
  if (vrt::chance(30)) arm(vrt::range(1, 6), 77);
  run_fn(std::move(f), ex::prop(exec::get_frame_allocator, PA(&u)), l, nullptr, x, true, true);
}
}  // namespace

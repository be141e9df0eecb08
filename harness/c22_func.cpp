// C22: any_sequence_sender, exec::function and the memory resource adaptor, against the unwrapped forms.
#include "c22.hpp"
#include "seq.hpp"
#include <exec/sequence/any_sequence_of.hpp>
#include <exec/function.hpp>
using namespace seq;

// ---------------------------------------------------------------------------------------------- any_sequence_sender
using ISigs = Sigs;
using AnySeq = exec::any_sequence_sender<exec::any_sequence_receiver<ISigs, exec::queries<>>>;
using AnySeqQ = exec::any_sequence_sender<exec::any_sequence_receiver<ISigs, exec::queries<int(q1_t) noexcept>>, SndQ>;
template <int PAD, bool NM, int AL, class MakeItem = Plain> struct alignas(AL) WS {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = typename src_sender<MakeItem>::completion_signatures;
  using item_types = typename src_sender<MakeItem>::item_types;
  Src* s; int qx; Tracked tr; char pad[PAD];
  WS(Src* s_, int x) : s(s_), qx(x) { memset(pad, 42, PAD); }
  WS(WS&& o) noexcept(NM) : s((o.chk(), o.s)), qx(o.qx) { if (!NM && G.moves_throw) throw_point(); memcpy(pad, o.pad, PAD); o.s = nullptr; }
  void chk() const { tr.chk(); if ((uintptr_t)this % AL) vrt::fail("a wrapped sequence is stored at a misaligned address"); for (char c : pad) if (c != 42) vrt::fail("a wrapped sequence was damaged"); if (!s) vrt::fail("a wrapped sequence is used after it was moved from"); }
  template <class R> auto subscribe(R r) && -> SrcOp<R, MakeItem> { chk(); if constexpr (!NM) throw_point(); if constexpr (requires { q1(ex::get_env(r)); }) { if (q1(ex::get_env(r)) != 4) vrt::fail("a declared query of the receiver of a sequence is answered differently through the wrapper"); vrt::cover("declared query of a sequence receiver"); } return SrcOp<R, MakeItem>((R&&)r, s, MakeItem{}); }
  auto get_env() const noexcept { tr.chk(); struct E { int x; int query(q1_t) const noexcept { return x; } int query(q2_t, int a) const { return x * 10 + a; } }; return E{qx}; }
};
static int got(Consumer& c, int ch, int code) { int k = 0; for (int i = 0; i < c.n.get(); i++) k += c.got[i].ch.get() == ch && (ch == STOPPED || c.got[i].code.get() == code); return k; }
struct SQEnv { int x = 0; int query(q1_t) const noexcept { return x; } };
struct AddOne { Val operator()(Val v) const { int n = v.get(); consume(v); return Val(n + 1000); } };

template <class A, class Env> void sequence_scenario(Env env) {
  Scene sc(8, 75, 50);
  sc.stop_mode = Scene::NO_STOP;   // any_sequence_receiver cannot declare a stop token (its static_assert rejects every receiver)
  Src s; Consumer c; c.rec = &sc.rec;
  int n = vrt::range(0, 4);
  for (int i = 0; i < n; i++) s.items.push_back(&sc.L(i));
  s.term = &sc.L(4); s.parallel = vrt::chance(25); s.eager_free = vrt::chance(50);
  if (n && vrt::chance(30)) c.break_after = vrt::range(1, n);
  c.fail_breaks = vrt::chance(30);
  for (int i = 0; i < 2 && vrt::chance(40); i++) { Leaf* l = &sc.L(5 + i); l->how = VALUE; l->onstop = IGNORE; c.proc.push_back(l); }
  int kind = vrt::choose(5), delta = 0; bool single = false;
  auto build = [&]() -> A {
    switch (kind) {
    case 0: vrt::cover("sequence inline"); return A(WS<1, true, 8>(&s, 4));
    case 1: vrt::cover("sequence on the heap"); return A(WS<200, true, 8>(&s, 4));
    case 2: vrt::cover("sequence with throwing moves and subscribe"); return A(WS<1, false, 8>(&s, 4));
    case 3: vrt::cover("over-aligned sequence"); return A(WS<1, true, 64>(&s, 4));
    default: break;
    }
    if constexpr (!std::is_same_v<A, AnySeqQ>) {
      if (n && vrt::chance(50)) { single = true; s.items.resize(1); vrt::cover("single sender as a sequence"); return A(W<20, true>(&sc.L(0), 4)); }
      delta = 1000; vrt::cover("adapted sequence in a wrapper in an adapted sequence");
      return A(exec::transform_each(WS<1, true, 8>(&s, 4), ex::then(AddOne{})));
    } else return A(WS<90, true, 32>(&s, 4));
  };
  std::vector<A> v; bool inj = vrt::chance(15);
  if (!attempt(inj, "wrapping a sequence threw", [&] { v.reserve(2); v.push_back(build()); })) { if (G.fns.get() || !v.empty()) vrt::fail("a failed wrapping left something behind"); return; }
  for (int k = vrt::choose(4); k > 0; k--) { A x(std::move(v[0])); if (vrt::chance(50)) swap(x, v[0]); else v[0] = std::move(x); }
  if constexpr (std::is_same_v<A, AnySeqQ>) if (q1(ex::get_env(v[0])) != 4 || q2(ex::get_env(v[0]), 3) != 43) vrt::fail("a query of a wrapped sequence is not answered by that sequence");
  inj = vrt::chance(20);
  if (!attempt(inj, "subscribing to a wrapped sequence threw", [&] { subscribe<true, Env>(c, std::move(v[0]), env); })) return;
  v.clear();
  bool throws = vrt::chance(25); if (throws) arm(vrt::range(1, 6), 77);
  sc.drive();
  int last = -1, started = 0;
  for (auto* l : s.items) {
    if (l->starts.get() > 1) vrt::fail("%s was started %d times", l->name, l->starts.get());
    if (!l->starts.get()) continue;
    started++;
    int d = l->how_done.get(), nv = got(c, VALUE, l->val + delta), ne = got(c, ERROR, l->val);
    if (nv > 1 || ne > 1) vrt::fail("%s is delivered twice", l->name);
    if (!G.thrown.get() && d == VALUE && nv != 1) vrt::fail("%s produced a value which was delivered %d times", l->name, nv);
    if (d == ERROR && ne != 1) vrt::fail("%s failed and its error was delivered %d times", l->name, ne);
    if (nv && !s.parallel) { int at = -1; for (int i = 0; i < c.n.get(); i++) if (c.got[i].ch.get() == VALUE && c.got[i].code.get() == l->val + delta) at = i; if (at < last) vrt::fail("%s is delivered out of order", l->name); last = at; }
  }
  if (c.n.get() != started) vrt::fail("%d items were produced but %d delivered", started, c.n.get());
  if (single) { if (started != 1 && !G.thrown.get()) vrt::fail("a single sender as a sequence was not started"); vrt::cover("single done"); return; }
  if (s.starts.get() != 1 || s.finished.get() != 1) vrt::fail("the wrapped sequence was started %d times and finished %d times", s.starts.get(), s.finished.get());
  if (c.broke.get() && !s.broken.get()) vrt::fail("the consumer's wish to stop did not reach the wrapped sequence");
  if (!c.broke.get() && s.broken.get()) vrt::fail("the wrapped sequence was told to stop although its consumer goes on");
  if (s.issued.get() != s.completed.get()) vrt::fail("%d items were issued and %d completed", s.issued.get(), s.completed.get());
  if (s.thrown.get()) { expect(sc.rec, ERROR, 77); vrt::cover("set_next threw through the wrapper"); }
  else if (s.broken.get()) { expect(sc.rec, s.fin_ch.get(), 0); vrt::cover("consumer broke off through the wrapper"); }
  else { if (sc.rec.ch.get() != s.fin_ch.get()) vrt::fail("the wrapped sequence ends with %s but %s is delivered", chname(s.fin_ch.get()), chname(sc.rec.ch.get()));
    if (s.fin_ch.get() == ERROR) expect(sc.rec, ERROR, s.term->val); vrt::cover("wrapped sequence ran to its end"); }
}
VRT_SCENARIO_F(any_sequence, 0, 3) { sequence_scenario<AnySeq>(SQEnv{4}); }
VRT_SCENARIO_F(any_sequence_queries, 0, 2) { sequence_scenario<AnySeqQ>(SQEnv{4}); }

// ------------------------------------------------------------------------------------------------------ exec::function
struct FCtx { Leaf* l; vrt::cell<int> calls; int* ref; int a, b; std::atomic<int>* dummy; };
template <class A> struct EnvA { ex::inplace_stop_token tok; A al; int x = 0;
  auto query(ex::get_stop_token_t) const noexcept { return tok; }
  int query(q1_t) const noexcept { return x; }
  A query(ex::get_allocator_t) const noexcept requires (sizeof(A) > 0) { return al; } };
template <class A> struct EnvF { ex::inplace_stop_token tok; A al; int x = 0;
  auto query(ex::get_stop_token_t) const noexcept { return tok; }
  int query(q1_t) const noexcept { return x; }
  A query(exec::get_frame_allocator_t) const noexcept { return al; } };
// both allocators: the frame allocator is the one to use
template <class A, class B> struct EnvB { ex::inplace_stop_token tok; A al; B other; int x = 0;
  auto query(ex::get_stop_token_t) const noexcept { return tok; }
  int query(q1_t) const noexcept { return x; }
  B query(ex::get_allocator_t) const noexcept { return other; }
  A query(exec::get_frame_allocator_t) const noexcept { return al; } };
struct EnvFN { Alloc<> al; int x = 0;
  int query(q1_t) const noexcept { return x; }
  Alloc<> query(exec::get_frame_allocator_t) const noexcept { return al; } };
struct EnvN { ex::inplace_stop_token tok; int x = 0;
  auto query(ex::get_stop_token_t) const noexcept { return tok; }
  int query(q1_t) const noexcept { return x; } };
// a memory resource that counts, and checks what it gets back
struct Res : std::pmr::memory_resource {
  struct B { void* p; size_t n, al; }; std::vector<B> live; int total = 0;
  void* do_allocate(size_t n, size_t al) override { throw_point(); vrt::quiet q; void* p = ::operator new(n, std::align_val_t(al)); live.push_back({p, n, al}); total++; return p; }
  void do_deallocate(void* p, size_t n, size_t al) override {
    vrt::quiet q;
    for (auto& b : live) if (b.p == p) { if (b.n != n || b.al != al) vrt::fail("memory is returned to a memory resource with another size or alignment"); b = live.back(); live.pop_back(); ::operator delete(p, std::align_val_t(al)); return; }
    vrt::fail("memory is returned to a memory resource that did not hand it out");
  }
  bool do_is_equal(memory_resource const& o) const noexcept override { return this == &o; }
};
static void asked(int) {}
template <class Base> struct AskOp { using operation_state_concept = ex::operation_state_tag; Base b; void start() & noexcept { b.start(); } };
// passes on to a sender, asking the declared query of the receiver at connect time
template <class S, bool Q> struct Asks {
  using sender_concept = ex::sender_tag; using completion_signatures = typename S::completion_signatures; S s; int x;
  template <class R> auto connect(R r) && { if constexpr (Q) if (q1(ex::get_env(r)) != x) vrt::fail("a declared query is answered differently through the function"); return ((S&&)s).connect((R&&)r); }
};
template <int KIND, bool Q> struct Factory {
  FCtx* c;
  template <class V, class... Rest> auto operator()(V&& v, Rest&&... rest) const {
    static_assert(!std::is_lvalue_reference_v<V>);
    c->calls.inc();
    if (v.get() != c->a) vrt::fail("an argument of a function arrives as %d instead of %d", v.get(), c->a);
    if constexpr (sizeof...(Rest) == 1) { if (((rest) + ... + 0) != c->b) vrt::fail("an argument of a function arrives changed"); }
    if constexpr (sizeof...(Rest) == 2) [&](int& r, std::unique_ptr<int>&& u) { if (&r != c->ref) vrt::fail("a reference passed to a function refers to another object"); if (!u || *u != c->b) vrt::fail("a move-only argument of a function arrives changed"); }((Rest&&)rest...);
    { V take((V&&)v); (void)take; }
    throw_point();
    if constexpr (KIND == 0) return Asks<W<1, true>, Q>{W<1, true>(c->l, 3), 7};
    else if constexpr (KIND == 1) return Asks<W<200, true>, Q>{W<200, true>(c->l, 3), 7};
    else if constexpr (KIND == 2) return Asks<W<20, false, 8, false, true>, Q>{W<20, false, 8, false, true>(c->l, 3), 7};
    else if constexpr (KIND == 3) return Asks<W<70, true, 64>, Q>{W<70, true, 64>(c->l, 3), 7};
    else return Asks<W<1, true, 8, true>, Q>{W<1, true, 8, true>(c->l, 3), 7};
  }
};
template <class F, bool Q, class... A> F mkfn(FCtx* c, int kind, A&&... a) {
  switch (kind) {
  case 0: return F((A&&)a..., Factory<0, Q>{c});
  case 1: return F((A&&)a..., Factory<1, Q>{c});
  case 2: return F((A&&)a..., Factory<2, Q>{c});
  case 3: return F((A&&)a..., Factory<3, Q>{c});
  default: return F((A&&)a..., Factory<4, Q>{c});
  }
}
using F1 = exec::function<ex::sender_tag(NVal, int&, std::unique_ptr<int>), ISigs>;
using F2 = exec::function<ex::sender_tag(Val, int), ISigs>;
using F3 = exec::function<ex::sender_tag(Val), ISigs, exec::queries<int(q1_t) noexcept>>;
using F4 = exec::function<ex::sender_tag(NVal), ISigs, exec::queries<Alloc<>(exec::get_frame_allocator_t) noexcept, int(q1_t) noexcept>>;
struct FScene : Scene {
  FCtx c{}; int ref = 0, kind = 0; Arena ar, ar2; Res res; int mode = 0; int used0 = 0;
  FScene() : Scene(1, 65, 50) {
    stop_mode = NO_STOP; c.l = &L(0); c.ref = &ref; c.a = vrt::range(20, 29); c.b = vrt::range(30, 39); kind = vrt::choose(5); c.calls.set(0);
    mode = vrt::choose(7);
  }
  static const char* mname(int m) { static constexpr const char* n[] = {"default allocator", "allocator", "frame allocator", "memory resource", "polymorphic allocator", "frame allocator, not its allocator", "frame resource, not its allocator"}; return n[m]; }
  template <class F> void conn(F&& f) {
    vrt::cover(mname(mode));
    switch (mode) {
    case 0: mon::connect(rec, (F&&)f, EnvN{src->get_token(), 7}); break;
    case 1: mon::connect(rec, (F&&)f, EnvA<Alloc<int>>{src->get_token(), Alloc<int>(&ar), 7}); break;
    case 2: mon::connect(rec, (F&&)f, EnvF<Alloc<>>{src->get_token(), Alloc<>(&ar), 7}); break;
    case 3: mon::connect(rec, (F&&)f, EnvF<Res*>{src->get_token(), &res, 7}); break;
    case 5: mon::connect(rec, (F&&)f, EnvB<Alloc<>, Alloc<int>>{src->get_token(), Alloc<>(&ar), Alloc<int>(&ar2), 7}); break;
    case 6: mon::connect(rec, (F&&)f, EnvB<std::pmr::polymorphic_allocator<>, Alloc<>>{src->get_token(), std::pmr::polymorphic_allocator<>(&res), Alloc<>(&ar2), 7}); break;
    default: mon::connect(rec, (F&&)f, EnvA<std::pmr::polymorphic_allocator<>>{src->get_token(), std::pmr::polymorphic_allocator<>(&res), 7}); break;
    }
  }
  bool own() { return mode == 1 || mode == 2 || mode == 5; }
  bool resource() { return mode == 3 || mode == 4 || mode == 6; }
  void empty() { if (ar.live.get() || ar.bytes.get() || !res.live.empty()) vrt::fail("memory from the frame allocator is not returned to it"); if (ar2.total.get()) vrt::fail("memory comes from the receiver's allocator although there is a frame allocator"); }
  void after_connect() {
    // an operation too large to be stored inline lives in memory from the frame allocator
    if (kind == 1 || kind == 3) {
      if (own() && !ar.live.get()) vrt::fail("the operation is not allocated with the receiver's %s", mname(mode));
      if (resource() && res.live.empty()) vrt::fail("the operation is not allocated with the receiver's %s", mname(mode));
      if (mode) vrt::cover("operation allocated with the given allocator");
    }
    if (c.calls.get() != 1) vrt::fail("connecting a function calls its factory %d times", c.calls.get());
  }
  void done() {
    int how = L(0).how_done.get();
    if (how == VALUE) expect_values(rec, {L(0).val}); else expect(rec, how, L(0).val);
    vrt::cover("function ran");
    empty();
  }
  void run_it() {
    after_connect();
    if (vrt::chance(8)) { rec.destroy(); empty(); if (L(0).starts.get()) vrt::fail("an operation that was never started ran"); vrt::cover("connected function is never started"); return; }
    drive(); done();
  }
};
VRT_SCENARIO_F(function_moveonly, 0, 2) {
  FScene sc;
  F1 f = mkfn<F1, false>(&sc.c, sc.kind, NVal(sc.c.a), sc.ref, std::make_unique<int>(sc.c.b));
  std::optional<F1> g(std::move(f));
  for (int k = vrt::choose(3); k > 0; k--) { F1 h(std::move(*g)); g.reset(); g.emplace(std::move(h)); }
  if (!attempt(vrt::chance(25), "connecting a function threw", [&] { sc.conn(std::move(*g)); })) { sc.empty(); return; }
  g.reset();
  sc.run_it();
}
VRT_SCENARIO_F(function_queries, 0, 1) {
  FScene sc;
  F3 f = mkfn<F3, true>(&sc.c, sc.kind, Val(sc.c.a));
  if (!attempt(vrt::chance(25), "connecting a function threw", [&] { if (vrt::chance(50)) sc.conn(std::move(f)); else sc.conn(std::as_const(f)); })) { sc.empty(); return; }
  sc.run_it();
}
VRT_SCENARIO_F(function_frame_allocator, 0, 1) {
  FScene sc; sc.mode = 2;
  F4 f = mkfn<F4, true>(&sc.c, sc.kind, NVal(sc.c.a));
  if (!attempt(vrt::chance(25), "connecting a function threw", [&] { mon::connect(sc.rec, std::move(f), EnvFN{Alloc<>(&sc.ar), 7}); })) { sc.empty(); return; }
  sc.run_it();
}
// a copyable function may be copied and connected any number of times
VRT_SCENARIO_F(function_copies, 0, 2) {
  FScene sc; std::vector<F2> v; v.reserve(6);
  v.push_back(mkfn<F2, false>(&sc.c, sc.kind, Val(sc.c.a), std::move(sc.c.b)));
  for (int k = vrt::range(1, 4); k > 0; k--) attempt(vrt::chance(25), "copying a function threw", [&] { size_t n = v.size(); int i = vrt::choose((int)n); v.push_back(v[i]); });
  for (int k = vrt::choose(4); k > 0; k--) {
    int before = sc.c.calls.get(); int i = vrt::choose((int)v.size());
    Rec r; r.mode = KEEP;
    bool ok = attempt(vrt::chance(30), "connecting a copy of a function threw", [&] { mon::connect(r, std::as_const(v[i]), EnvA<Alloc<int>>{{}, Alloc<int>(&sc.ar), 7}); });
    if (ok && sc.c.calls.get() != before + 1) vrt::fail("connecting a function calls its factory %d times", sc.c.calls.get() - before);
    r.destroy(); sc.empty();
    vrt::cover("function connected again");
  }
  sc.c.calls.set(0);
  int i = vrt::choose((int)v.size()); bool rv = vrt::chance(50);
  if (!attempt(vrt::chance(20), "connecting a function threw", [&] { if (rv) sc.conn(std::move(v[i])); else sc.conn(std::as_const(v[i])); })) { sc.empty(); return; }
  v.clear();
  sc.run_it();
}
VRT_SCENARIO_F(memory_resource, vrt::F_SEQ, 1) {
  Run run; Arena a1, a2; Res res;
  using AdA = exec::__memory_resource_adaptor_t<Alloc<int>>; using AdS = exec::__memory_resource_adaptor_t<std::allocator<double>>; using AdP = exec::__memory_resource_adaptor_t<std::pmr::polymorphic_allocator<int>>;
  {
    AdA m1{Alloc<int>(&a1)}, m2{Alloc<char>(&a2)}, m3{Alloc<>(&a1)}; AdS s1{std::allocator<int>()}, s2{std::allocator<char>()}; AdP p1{std::pmr::polymorphic_allocator<int>(&res)};
    std::pmr::memory_resource* m[] = {&m1, &m2, &m3, &s1, &s2, &p1}; int grp[] = {0, 1, 0, 2, 2, 3};
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (m[i]->is_equal(*m[j]) != (grp[i] == grp[j])) vrt::fail("memory resources of %s allocators compare %s", grp[i] == grp[j] ? "equal" : "different", grp[i] == grp[j] ? "different" : "equal");
    struct B { unsigned char* p; size_t n, al; int by; unsigned char tag; }; std::vector<B> live;
    auto give = [&](size_t i) { B b = live[i]; for (size_t k = 0; k < b.n; k++) if (b.p[k] != b.tag) vrt::fail("memory from a memory resource is overwritten"); int by = b.by; for (int j = 0; j < 6; j++) if (grp[j] == grp[b.by] && vrt::chance(40)) by = j; live[i] = live.back(); live.pop_back(); m[by]->deallocate(b.p, b.n, b.al); };
    for (int n = vrt::range(4, 30); n > 0; n--) {
      if (live.size() < 8 && vrt::chance(60)) {
        size_t sz = vrt::chance(20) ? 0 : vrt::chance(50) ? vrt::range(1, 40) : vrt::range(1, 700), al = (size_t)1 << vrt::choose(9); int by = vrt::choose(6); unsigned char* p = nullptr;
        if (!attempt(vrt::chance(15), "a memory resource ran out of memory", [&] { p = (unsigned char*)m[by]->allocate(sz, al); })) continue;
        if ((uintptr_t)p % al) vrt::fail("memory from a memory resource is misaligned");
        for (auto& b : live) if (p < b.p + b.n && b.p < p + sz) vrt::fail("memory from a memory resource overlaps other memory");
        memset(p, n, sz); live.push_back({p, sz, al, by, (unsigned char)n});
        vrt::observed();
      } else if (!live.empty()) give(vrt::choose((int)live.size()));
    }
    while (!live.empty()) give(0);
    vrt::cover("memory resource exercised");
  }
  if (a1.live.get() || a2.live.get() || !res.live.empty()) vrt::fail("memory from a memory resource adaptor is not returned");
}

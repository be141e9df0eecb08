// C22, the storage underneath: __any against a model.  Random sequences of wrapper operations over slots of three related
// interfaces, with values of every layout, throwing copies and moves, allocation failures and counting allocators.
#include "mon.hpp"
#include <exec/any_sender_of.hpp>
using namespace mon;
namespace A = ex::__any;

template <class B> struct IGet : A::__interface_base<IGet, B> {
  using IGet::__interface_base::__interface_base;
  virtual int get() const { return A::__value(*this).get(); }
  virtual void const* where() const { return A::__value(*this).where(); }
};
template <class B> struct IMove : A::__interface_base<IMove, B, A::__extends<IGet, A::__imovable>> {
  using IMove::__interface_base::__interface_base;
  virtual void set(int x) { A::__value(*this).set(x); }
};
template <class B> struct ICopy : A::__interface_base<ICopy, B, A::__extends<IMove, A::__icopyable>> {
  using ICopy::__interface_base::__interface_base;
  virtual int plus(int x) const { return A::__value(*this).plus(x); }
};
// regular values, a bigger buffer, and the bases the other way round
template <class B> struct IReg : A::__interface_base<IReg, B, A::__extends<A::__isemiregular, IGet>, 80> {
  using IReg::__interface_base::__interface_base;
  virtual void set(int x) { A::__value(*this).set(x); }
};
// regular values with the root of equality first
template <class B> struct IEq : A::__interface_base<IEq, B, A::__extends<A::__isemiregular>> {
  using IEq::__interface_base::__interface_base;
  virtual int get() const { return A::__value(*this).get(); }
  virtual void const* where() const { return A::__value(*this).where(); }
  virtual void set(int x) { A::__value(*this).set(x); }
};
template <class B> struct IEq2 : A::__interface_base<IEq2, B, A::__extends<A::__iequality_comparable, A::__icopyable, IGet>> {
  using IEq2::__interface_base::__interface_base;
  virtual void set(int x) { A::__value(*this).set(x); }
};
template <template <class> class I> struct AnyOf : A::__any<I> {
  using A::__any<I>::__any;
  using A::__any<I>::operator=;
};

// moves never fail, everything else may
struct CVal {
  int* p; unsigned magic;
  explicit CVal(int x) : p(new int(x)), magic(Val::LIVE) { G.vals.inc(); }
  CVal(CVal const& o) : p(nullptr), magic(0) { o.chk("copied from"); throw_point(); if (o.p) p = new int(*o.p); magic = Val::LIVE; G.vals.inc(); }
  CVal(CVal&& o) noexcept : p(std::exchange(o.p, nullptr)), magic(Val::LIVE) { o.chk("moved from"); G.vals.inc(); }
  CVal& operator=(CVal o) noexcept { chk("assigned to"); std::swap(p, o.p); return *this; }
  ~CVal() { chk("destroyed"); magic = Val::DEAD; delete p; p = nullptr; G.vals.inc(-1); }
  void chk(const char* w) const { if (magic != Val::LIVE) vrt::fail("a value is %s although it is %s", w, magic == Val::DEAD ? "already destroyed" : "not constructed"); }
  int get() const { chk("read"); if (!p) vrt::fail("a value is read after having been moved from"); return *p; }
};
struct TVal { int x; explicit TVal(int v) : x(v) {} int get() const { return x; } };   // trivial
template <class V, int PAD, int AL, int K> struct alignas(AL) Thing {
  static constexpr int kind = K;
  V v; char pad[PAD];
  explicit Thing(int x) : v(x) { throw_point(); memset(pad, K, PAD); }
  void chk() const {
    if ((uintptr_t)this % AL) vrt::fail("a wrapped object of alignment %d is stored at a misaligned address", AL);
    for (char c : pad) if (c != K) vrt::fail("the contents of a wrapped object were damaged");
  }
  int get() const { chk(); return v.get(); }
  void set(int x) { chk(); v = V(x); }
  int plus(int x) const { chk(); return v.get() + x; }
  void const* where() const { return this; }
  bool operator==(Thing const& o) const { chk(); o.chk(); return v.get() == o.v.get(); }
};
template <class V> struct MoveOnly : V {
  using V::V;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&& o) noexcept { this->chk("assigned to"); o.chk("moved from"); std::swap(this->p, o.p); return *this; }
};
using T0 = Thing<CVal, 1, 8, 0>;                 // inline
using T1 = Thing<CVal, 200, 8, 1>;               // on the heap
using T2 = Thing<Val, 1, 8, 2>;                  // on the heap because moving it may throw
using T3 = Thing<CVal, 1, 64, 3>;                // over-aligned
using T4 = Thing<TVal, 4, 4, 4>;                 // trivial
using T5 = Thing<CVal, 40, 8, 5>;                // inline only in the bigger buffer
using T6 = Thing<TVal, 1, 16, 6>;                // small but over-aligned
using M0 = Thing<MoveOnly<CVal>, 1, 8, 7>;
using M1 = Thing<MoveOnly<Val>, 90, 8, 8>;

struct Slot { int kind = -1, id = 0; bool operator==(Slot const&) const = default; };
static const char* kname(int k) { static constexpr const char* n[] = {"inline", "heap", "throwing move", "aligned to 64", "trivial", "fits the big buffer", "aligned to 16", "move-only inline", "move-only throwing"}; return k < 0 ? "empty" : n[k]; }

template <class F> auto with_kind(int k, F f) {
  switch (k) {
  case 0: return f((T0*)0);
  case 1: return f((T1*)0);
  case 2: return f((T2*)0);
  case 3: return f((T3*)0);
  case 4: return f((T4*)0);
  case 5: return f((T5*)0);
  default: return f((T6*)0);
  }
}
template <class F> auto with_kind_mo(int k, F f) {
  switch (k) { case 7: return f((M0*)0); case 8: return f((M1*)0); default: return with_kind(k, f); }
}

template <class Any, class F> auto kinds(int k, F f) { if constexpr (A::__extension_of<Any, A::__icopyable>) return with_kind(k, f); else return with_kind_mo(k, f); }
// what a wrapper must look like
template <class X> void check(X const& a, Slot s, const char* after) {
  if (A::__empty(a) != (s.kind < 0)) vrt::fail("after %s a wrapper that should hold %s is %s", after, kname(s.kind), s.kind < 0 ? "not empty" : "empty");
  if (s.kind < 0) {
    if (A::__type(a) != ex::__mtypeid<void>) vrt::fail("after %s an empty wrapper reports the type of a value", after);
    if (A::__data(a)) vrt::fail("after %s an empty wrapper has an address of a value", after);
    return;
  }
  if (a.get() != s.id) vrt::fail("after %s a wrapper (%s) holds %d instead of %d", after, kname(s.kind), a.get(), s.id);
  kinds<X>(s.kind, [&]<class T>(T*) {
    {
      if (A::__type(a) != ex::__mtypeid<T>) vrt::fail("after %s a wrapper reports the wrong type", after);
      T const* p = A::__any_cast<T>(&a);
      if (!p) vrt::fail("after %s the value cannot be cast back to its type", after);
      if (p->get() != s.id || p->where() != a.where() || A::__data(a) != p) vrt::fail("after %s the value cast back is not the wrapped one", after);
    }
  });
  struct Other { int get() const { return 0; } void const* where() const { return 0; } void set(int) {} int plus(int) const { return 0; } bool operator==(Other const&) const = default; };
  if (A::__any_cast<Other>(&a)) vrt::fail("after %s the value can be cast to an unrelated type", after);
}

template <class Any> struct World {
  static constexpr bool copyable = A::__extension_of<Any, A::__icopyable>;
  static constexpr bool regular = A::__extension_of<Any, A::__iequality_comparable>, getter = A::__extension_of<Any, IGet>;
  static constexpr int N = 4;
  Any a[N]; Slot m[N];
};
static int rid() { return vrt::range(10, 14); }

static const char* op_name = "nothing";
static vrt::cell<int> changes;
// runs f, which may throw an injected failure; returns whether it went through
template <class F> bool attempt(F f) {
  bool inject = vrt::chance(35), mem = vrt::chance(30);
  G.moves_throw = vrt::chance(60);
  bool ok = true, thrown = false;
  if (inject && mem) vrt::fail_alloc(vrt::range(1, 3), true);
  else if (inject) arm(vrt::range(1, 4), 500);
  try { f(); }
  catch (Boom const& b) { ok = false; if (b.code != 500 || !G.thrown.get()) vrt::fail("%s: an exception of unknown origin", op_name); thrown = true; }
  catch (std::bad_alloc const&) { ok = false; if (!vrt::alloc_failed()) vrt::fail("%s: bad_alloc although no allocation failed", op_name); vrt::cover("out of memory in a wrapper operation"); thrown = true; }
  vrt::fail_alloc(0, false); G.armed.set(0); G.moves_throw = false;
  if (!thrown && ok && inject && !mem && G.thrown.get()) vrt::fail("%s: a failure of a wrapped object's operation was swallowed", op_name);
  if (thrown) vrt::cover("a wrapper operation threw");
  changes.inc(); vrt::observed();
  return ok;
}

template <class Any> void random_op(World<Any>& w, Arena& ar) {
  using W = World<Any>;
  constexpr bool mo = !W::copyable;
  int i = vrt::choose(W::N), j = vrt::choose(W::N), k = vrt::choose(mo ? 9 : 7), id = rid();
  Slot before[W::N]; for (int q = 0; q < W::N; q++) before[q] = w.m[q];
  auto weak = [&](int t, bool ok, Slot want) {       // on failure the target keeps its value or is empty
    if (ok) { w.m[t] = want; return; }
    w.m[t] = A::__empty(w.a[t]) ? Slot{} : before[t];
  };
  auto strong = [&](int t, bool ok, Slot want) { if (ok) w.m[t] = want; };
  switch (vrt::choose(14)) {
  case 0: op_name = "assigning a value"; weak(i, attempt([&] { kinds<Any>(k, [&]<class T>(T*) { w.a[i] = T(id); }); }), {k, id}); break;
  case 1: op_name = "emplacing a value"; weak(i, attempt([&] { kinds<Any>(k, [&]<class T>(T*) { { T& t = w.a[i].template emplace<T>(id); if (t.get() != id || (void*)&t != A::__data(w.a[i])) vrt::fail("emplace returned something else than the wrapped object"); } }); }), {k, id}); break;
  case 2: op_name = "constructing in place"; strong(i, attempt([&] { kinds<Any>(k, [&]<class T>(T*) { { Any x(std::in_place_type<T>, id); w.a[i] = std::move(x); } }); }), {k, id}); break;
  case 3: {
    op_name = "constructing with an allocator";
    bool big = k == 1 || k == 2 || k == 8;
    int tot = ar.total.get();
    bool ok = attempt([&] { kinds<Any>(k, [&]<class T>(T*) { { Any x{T{id}, Alloc<std::byte>{&ar}}; w.a[i] = std::move(x); } }); });
    if (ok && big && ar.total.get() == tot && k != 5) vrt::fail("a value that does not fit the wrapper was not stored with the given allocator");
    strong(i, ok, {k, id}); break; }
  case 4: op_name = "constructing from a function"; strong(i, attempt([&] { kinds<Any>(k, [&]<class T>(T*) { { Any x(ex::__in_place_from, [&](int v) { return T(v); }, id); w.a[i] = std::move(x); } }); }), {k, id}); break;
  case 5: if constexpr (W::copyable) {
    op_name = "copy construction"; Any* x = nullptr; bool ok = attempt([&] { auto p = std::make_unique<Any>(std::as_const(w.a[i])); x = p.release(); });
    check(w.a[i], before[i], op_name);
    if (ok) { check(*x, before[i], op_name); if (before[i].kind >= 0 && x->where() == w.a[i].where()) vrt::fail("a copy shares the object of its original"); if (before[i].kind >= 0) { x->set(3); check(w.a[i], before[i], "changing a copy"); } delete x; }
    break; } [[fallthrough]];
  case 6: if constexpr (W::copyable) { op_name = i == j ? "self copy assignment" : "copy assignment"; strong(i, attempt([&] { w.a[i] = std::as_const(w.a[j]); }), before[j]); check(w.a[j], i == j ? w.m[i] : before[j], op_name); break; } [[fallthrough]];
  case 7: op_name = "move construction"; { Any x(std::move(w.a[i])); check(x, before[i], op_name); A::__reset(w.a[i]); w.m[i] = {}; if (vrt::chance(70)) { w.a[i] = std::move(x); w.m[i] = before[i]; } } break;
  case 8: if (i == j) { op_name = "self move assignment"; Any& r = w.a[i]; w.a[i] = std::move(r); break; }
    op_name = "move assignment"; w.a[i] = std::move(w.a[j]); A::__reset(w.a[j]); w.m[i] = before[j]; w.m[j] = {}; break;
  case 9: op_name = i == j ? "swapping with itself" : "swap"; if (vrt::chance(50)) swap(w.a[i], w.a[j]); else w.a[i].swap(w.a[j]); std::swap(w.m[i], w.m[j]); break;
  case 10: op_name = "reset"; A::__reset(w.a[i]); w.m[i] = {}; break;
  case 11: op_name = "a modification through the interface"; if (before[i].kind >= 0) weak(i, attempt([&] { w.a[i].set(id); }), {before[i].kind, id}); break;
  case 12: { op_name = "swapping containers"; Any x; using std::swap; swap(x, w.a[i]); if (!A::__empty(w.a[i])) vrt::fail("swapping with an empty wrapper left a value"); check(x, before[i], op_name); if (vrt::chance(80)) swap(x, w.a[i]); else w.m[i] = {}; break; }
  default: if constexpr (W::getter) {                 // pointers
    op_name = "pointing at a wrapper";
    A::__any_ptr<IGet> p = A::__addressof(w.a[i]);
    A::__any_cptr<IGet> c = A::__caddressof(w.a[j]);
    A::__any_cptr<IGet> q, n = nullptr; q = p;
    if (before[i].kind >= 0) {
      if (p->get() != before[i].id || q->get() != before[i].id || p->where() != w.a[i].where()) vrt::fail("a pointer to a wrapper does not refer to the wrapped object");
      if (p == n || q == n) vrt::fail("a pointer to a wrapped object equals the null pointer");
      auto p2 = p; A::__any_ptr<IGet> p3; p3 = p2; swap(p2, p3);
      if (p3->get() != before[i].id || !(p3 == p)) vrt::fail("copying a pointer to a wrapped object changed it");
    } else if (!(p == n)) vrt::fail("a pointer to an empty wrapper is not null");
    if (before[i].kind >= 0 && before[j].kind >= 0 && (q == c) != (i == j)) vrt::fail("pointers compare %s although they refer to %s wrapper", i == j ? "unequal" : "equal", i == j ? "the same" : "different");
    T1 t(id); A::__any_ptr<IGet> d(&t); A::__any_cptr<IGet> e; e = d;
    if (d->get() != id || e->get() != id || d->where() != &t || !(d == static_cast<A::__any_ptr_base<IGet> const&>(e))) vrt::fail("a pointer to a plain object does not refer to it");
    if (A::__any_cast<T1>(d) != &t) vrt::fail("a pointer to a plain object cannot be cast back");
    break; }
  }
  if constexpr (W::regular) for (int x = 0; x < W::N; x++) for (int y = 0; y < W::N; y++)
    if ((w.a[x] == w.a[y]) != (w.m[x] == w.m[y])) vrt::fail("after %s wrapped objects compare %s, the originals %s", op_name, w.a[x] == w.a[y] ? "equal" : "different", w.m[x] == w.m[y] ? "equal" : "different");
  for (int q = 0; q < W::N; q++) {
    check(w.a[q], w.m[q], op_name);
    if (w.m[q].kind >= 0) vrt::cover(kname(w.m[q].kind));
  }
}
template <class Any> void scenario(Any*) {
  Run run; Arena ar; changes.set(0);
  {
    World<Any> w;
    for (int n = vrt::range(3, 25); n > 0; n--) random_op(w, ar);
    vrt::log(7, changes.get(), ar.total.get(), 0);
  }
  if (ar.live.get()) vrt::fail("%d allocations were not returned to the given allocator", ar.live.get());
}
VRT_SCENARIO_F(moveonly_wrappers, vrt::F_SEQ, 3) { scenario((AnyOf<IMove>*)0); }
VRT_SCENARIO_F(copyable_wrappers, vrt::F_SEQ, 4) { scenario((AnyOf<ICopy>*)0); }
VRT_SCENARIO_F(regular_wrappers, vrt::F_SEQ, 3) { scenario((AnyOf<IReg>*)0); }

VRT_SCENARIO_F(regular_wrappers_2, vrt::F_SEQ, 2) { scenario((AnyOf<IEq>*)0); }
VRT_SCENARIO_F(regular_wrappers_3, vrt::F_SEQ, 2) { scenario((AnyOf<IEq2>*)0); }

// conversions between wrappers of related interfaces, by copy, by move and through pointers
VRT_SCENARIO_F(conversions, vrt::F_SEQ, 3) {
  Run run; Arena ar;
  {
    AnyOf<ICopy> c; Slot sc;
    AnyOf<IMove> m[2]; Slot sm[2];
    for (int n = vrt::range(3, 20); n > 0; n--) {
      int k = vrt::choose(7), i = vrt::choose(2), id = rid();
      Slot pc = sc, pm[2] = {sm[0], sm[1]};
      auto fin = [&](bool ok, bool consumed) {
        if (consumed) { A::__reset(c); sc = {}; }
        if (ok) sm[i] = pc; else sm[i] = A::__empty(m[i]) ? Slot{} : pm[i];
      };
      switch (vrt::choose(8)) {
      case 0: case 1: op_name = "filling"; { bool ok = attempt([&] { with_kind(k, [&]<class T>(T*) { if (id & 1) { AnyOf<ICopy> x{T{id}, Alloc<std::byte>{&ar}}; c = std::move(x); } else c.template emplace<T>(id); }); }); if (ok) sc = {k, id}; else if (A::__empty(c)) sc = {}; } break;
      case 2: op_name = "assigning a copy of a wrapper of a derived interface"; fin(attempt([&] { m[i] = c; }), false); break;
      case 3: op_name = "assigning a wrapper of a derived interface"; fin(attempt([&] { m[i] = std::move(c); }), true); break;
      case 4: { op_name = "constructing from a wrapper of a derived interface"; bool mv = vrt::chance(50); bool ok = attempt([&] { if (mv) { AnyOf<IMove> x(std::move(c)); m[i] = std::move(x); } else { AnyOf<IMove> x(c); m[i] = std::move(x); } }); if (mv) { A::__reset(c); sc = {}; } if (ok) sm[i] = pc; break; }
      case 5: {
        op_name = "copying through a pointer"; if (pc.kind < 0) break;
        A::__any_ptr<ICopy> p = A::__addressof(c);
        A::__any_ptr<IMove> pm2 = p; A::__any_cptr<IGet> pg = pm2; A::__any_cptr<IGet> pg2; pg2 = p;
        if (p->plus(1) != pc.id + 1 || pm2->get() != pc.id || pg->get() != pc.id || pg2->get() != pc.id || pg->where() != c.where()) vrt::fail("a converted pointer does not refer to the wrapped object");
        if (!(pg == pg2)) vrt::fail("pointers to one object through different interfaces differ");
        pm2->set(id); if (c.get() != id) vrt::fail("a modification through a pointer was lost"); sc.id = id;
        bool self = false; AnyOf<ICopy> y; Slot sy;
        if (attempt([&] { y = *p; })) sy = sc; else if (!A::__empty(y)) vrt::fail("a failed copy left a value");
        check(y, sy, op_name); check(c, sc, op_name); (void)self;
        pc = sc; fin(attempt([&] { if (id & 1) m[i] = *p; else { AnyOf<IMove> z(*p); m[i] = std::move(z); } }), false);
        T5 plain(id); A::__any_ptr<ICopy> pp(&plain); AnyOf<IMove> q; op_name = "copying through a pointer to a plain object"; Slot sq;
        if (attempt([&] { q = *pp; })) sq = {5, id};
        check(q, sq, op_name); if (plain.get() != id) vrt::fail("copying through a pointer changed the original");
        c = *p; break; }                                  // assignment from a reference to oneself
      case 7: {                                           // equality through wrappers of different interfaces
        op_name = "comparing wrappers"; AnyOf<IReg> x; AnyOf<IEq2> y; Slot sx, sy;
        with_kind(k, [&]<class T>(T*) { x.template emplace<T>(id); sx = {k, id}; });
        int k2 = vrt::chance(60) ? k : (int)vrt::choose(7), id2 = rid();
        if (vrt::chance(85)) with_kind(k2, [&]<class T>(T*) { y.template emplace<T>(id2); sy = {k2, id2}; });
        if ((x == y) != (sx == sy) || (y == x) != (sx == sy)) vrt::fail("wrappers of different interfaces compare wrongly");
        AnyOf<A::__iequality_comparable>* z = nullptr; (void)z;
        break; }
      case 6: { op_name = "swap"; swap(m[0], m[1]); std::swap(sm[0], sm[1]); break; }
      }
      check(c, sc, op_name); check(m[0], sm[0], op_name); check(m[1], sm[1], op_name);
      if (sc.kind >= 0) vrt::cover(kname(sc.kind));
    }
  }
  if (ar.live.get()) vrt::fail("%d allocations were not returned to the given allocator", ar.live.get());
}

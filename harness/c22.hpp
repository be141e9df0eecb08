// C22: what the type-erasure harnesses share.
#pragma once
#include "mon.hpp"
#include <exec/any_sender_of.hpp>
using namespace mon;

// forwarded and declared queries
struct q1_t { template <class E> auto operator()(E const& e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct q2_t { template <class E> auto operator()(E const& e, int x) const -> decltype(e.query(*this, (int&&)x)) { return e.query(*this, (int&&)x); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct q3_t { template <class E> auto operator()(E const& e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct q4_t { template <class E> auto operator()(E const& e, Val&& v) const noexcept -> decltype(e.query(*this, (Val&&)v)) { return e.query(*this, (Val&&)v); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr q1_t q1{}; inline constexpr q2_t q2{}; inline constexpr q3_t q3{}; inline constexpr q4_t q4{};

struct QEnv {
  ex::inplace_stop_token tok; int x = 0; int* ref = nullptr;
  auto query(ex::get_stop_token_t) const noexcept { return tok; }
  int query(q1_t) const noexcept { return x; }
  int query(q2_t, int a) const { return x * 100 + a; }
  int& query(q3_t) const noexcept { return *ref; }
  int query(q4_t, Val&& v) const noexcept { int r = v.get() + x; consume(v); return r; }
};
using Sigs = ex::completion_signatures<ex::set_value_t(Val&&), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using RSigs = ex::completion_signatures<ex::set_value_t(Val&&), ex::set_error_t(Err&&), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
using StopQ = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>;
using AllQ = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, int(q1_t) noexcept, int(q2_t, int), int&(q3_t) noexcept, int(q4_t, Val&&) noexcept>;
using SndQ = exec::queries<int(q1_t) noexcept, int(q2_t, int)>;
using AnyStop = exec::any_sender<exec::any_receiver<Sigs, StopQ>>;
using AnyPlain = exec::any_sender<exec::any_receiver<Sigs>>;
using AnyAll = exec::any_sender<exec::any_receiver<Sigs, AllQ>, SndQ>;
using AnyRef = exec::any_sender<exec::any_receiver<RSigs, StopQ>>;

// a receiver of a chosen size and alignment between a wrapped sender and the outside
template <class R, int PAD, int AL> struct Through {
  using receiver_concept = ex::receiver_tag;
  R r;
  alignas(AL) char pad[PAD];
  template <class... A> void set_value(A&&... a) noexcept { ex::set_value((R&&)r, (A&&)a...); }
  template <class E> void set_error(E&& e) noexcept { ex::set_error((R&&)r, (E&&)e); }
  void set_stopped() noexcept { ex::set_stopped((R&&)r); }
  auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(r); }
};
// an operation that is small enough to be stored inline: completes when it is started
template <class R> struct TinyOp {
  using operation_state_concept = ex::operation_state_tag;
  R r; Leaf* l;
  TinyOp(R&& r_, Leaf* l_) noexcept : r((R&&)r_), l(l_) { l->live_ops.inc(); }
  TinyOp(TinyOp&&) = delete;
  ~TinyOp() { l->live_ops.inc(-1); }
  void start() & noexcept {
    Leaf* q = l; q->starts.inc(); q->completes.inc(); q->how_done.set(q->how); q->tid.set(vrt::tid()); q->stop_possible.set(ex::get_stop_token(ex::get_env(r)).stop_possible());
    int v = q->val;
    if (q->how == VALUE) { std::optional<Val> x; { vrt::quiet z; x.emplace(v); } ex::set_value((R&&)r, std::move(*x)); }
    else if (q->how == ERROR) { if (v % 2) { std::optional<Err> e; { vrt::quiet z; e.emplace(v); } ex::set_error((R&&)r, std::move(*e)); } else ex::set_error((R&&)r, std::make_exception_ptr(Boom{v})); }
    else ex::set_stopped((R&&)r);
  }
};
// a wrapped sender: size, alignment, and what its moves do
template <int PAD, bool NM, int AL = 8, bool TINY = false, bool CONNECT_THROWS = false> struct alignas(AL) W {
  using sender_concept = ex::sender_tag;
  using completion_signatures = Sigs;
  Leaf* l; int qx; Tracked tr; char pad[PAD];
  W(Leaf* l_, int x) : l(l_), qx(x) { memset(pad, 42, PAD); }
  W(W&& o) noexcept(NM) : l((o.chk(), o.l)), qx(o.qx) { if (!NM && G.moves_throw) throw_point(); memcpy(pad, o.pad, PAD); o.l = nullptr; }
  void chk() const { tr.chk(); if ((uintptr_t)this % AL) vrt::fail("a wrapped sender is stored at a misaligned address"); for (char c : pad) if (c != 42) vrt::fail("a wrapped sender was damaged"); if (!l) vrt::fail("a wrapped sender is used after it was moved from"); }
  template <class R> auto connect(R r) && noexcept(!CONNECT_THROWS) {
    chk(); Leaf* q = l;
    if constexpr (CONNECT_THROWS) throw_point();
    if constexpr (TINY) return TinyOp<R>((R&&)r, q);
    else { using T = Through<R, PAD, AL>; return LeafOp<T>(T{(R&&)r, {}}, q); }
  }
  auto get_env() const noexcept { tr.chk(); struct E { int x; int query(q1_t) const noexcept { return x; } int query(q2_t, int a) const { return x * 10 + a; } }; return E{qx}; }
};
enum { KINDS = 7 };
static const char* kname(int k) { static constexpr const char* n[] = {"sender inline", "sender on the heap", "sender with throwing moves", "over-aligned sender", "sender with a small operation", "sender whose connect throws", "small sender whose connect throws"}; return n[k]; }
template <class A> A make(Leaf* l, int x, int k) {
  vrt::cover(kname(k));
  switch (k) {
  case 0: return A(W<1, true>(l, x));
  case 1: return A(W<150, true>(l, x));
  case 2: return A(W<1, false>(l, x));
  case 3: return A(W<70, true, 64>(l, x));
  case 4: return A(W<1, true, 8, true>(l, x));
  case 5: return A(W<20, false, 8, false, true>(l, x));
  default: return A(W<1, true, 16, true, true>(l, x));
  }
}

// Runs f with a failure injected at a random point; true if it went through.
template <class F> bool attempt(bool inject, const char* what, F f) {
  bool mem = vrt::chance(40), ok = true;
  if (inject) { G.moves_throw = true; if (mem) vrt::fail_alloc(vrt::range(1, 4), true); else arm(vrt::range(1, 5), 500, true); }
  try { f(); }
  catch (Boom const& b) { ok = false; if (b.code != 500) vrt::fail("%s: an exception of unknown origin", what); }
  catch (std::bad_alloc const&) { ok = false; if (!vrt::alloc_failed()) vrt::fail("%s: bad_alloc although no allocation failed", what); }
  if (inject && !mem && ok && G.thrown.get()) vrt::fail("%s: a failure was swallowed", what);
  vrt::fail_alloc(0, false); G.armed.set(0); G.moves_throw = false;
  if (!ok) vrt::cover(what);
  return ok;
}

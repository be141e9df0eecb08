// C05/C26: one ingredient may throw, the others promise that they do not.  Every adaptor is composed of values, errors,
// functions, schedulers and senders whose noexcept promises vary one by one at compile time; a throwing ingredient is armed
// at run time and has to come out as exactly one error completion carrying the exception (or out of connect).
#include "mon.hpp"
#include <exec/env.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/async_scope.hpp>
#include <exec/when_any.hpp>
namespace mon { inline int code_of(NVal const& v) { return v.get(); } }
namespace {
using namespace mon;
bool copies_throw;
template <bool NX> struct Tr : Tracked { Tr() noexcept {} Tr(Tr const& o) noexcept(NX) : Tracked(o) { if constexpr (!NX) if (copies_throw) throw_point(); } Tr(Tr&& o) noexcept(NX) : Tracked((Tracked&&)o) { if constexpr (!NX) if (copies_throw) throw_point(); } Tr& operator=(Tr const&) noexcept = default; };
template <bool NX> using V = std::conditional_t<NX, NVal, Val>;   // a value or error that may throw when it is copied or moved
template <bool NX, class Ret> struct F : Tr<NX> {                // a function that may throw
  Ret ret;
  explicit F(Ret r) : ret(std::move(r)) {}
  template <class... A> Ret operator()(A&&...) noexcept(NX && std::is_nothrow_copy_constructible_v<Ret>) { this->chk(); if constexpr (!NX) throw_point(); return ret; }
};
struct Nil {};
template <bool NX> struct FV : Tr<NX> { template <class... A> void operator()(A&&...) noexcept(NX) { this->chk(); if constexpr (!NX) throw_point(); } };
template <bool NX> struct FI : Tr<NX> { template <class... A> int operator()(A&&...) noexcept(NX) { this->chk(); if constexpr (!NX) throw_point(); return 3; } };
enum { SV, SE, SS };
// a sender of one value, one error or stopped; connecting it may throw
template <int CH, bool NXV, bool NXC> struct S : Tr<NXC> {
  using sender_concept = ex::sender_tag;
  using sig = std::conditional_t<CH == SV, ex::set_value_t(V<NXV>), std::conditional_t<CH == SE, ex::set_error_t(V<NXV>), ex::set_stopped_t()>>;
  using completion_signatures = ex::completion_signatures<sig>;
  template <class R> struct op {
    R r; std::optional<V<NXV>> held; bool in_op;
    op(R&& r_, bool i) noexcept : r((R&&)r_), in_op(i) {}
    op(op&&) = delete;
    template <class... A> void send(A&&... a) noexcept { if constexpr (CH == SV) ex::set_value((R&&)r, (A&&)a...); else if constexpr (CH == SE) ex::set_error((R&&)r, (A&&)a...); else ex::set_stopped((R&&)r); }
    void start() & noexcept {
      if constexpr (CH == SS) send();
      else if (in_op) { { vrt::quiet q; held.emplace(5); } send(std::move(*held)); }
      else { std::optional<V<NXV>> l; { vrt::quiet q; l.emplace(5); } send(std::move(*l)); }
    }
  };
  bool in_op = vrt::choose(2);
  template <class R> op<R> connect(R r) const noexcept(NXC) { this->chk(); if constexpr (!NXC) throw_point(); return op<R>((R&&)r, in_op); }
};
template <bool NXC> struct Void : Tr<NXC> {                       // sends nothing; connecting it may throw
  using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
  template <class R> struct op { R r; void start() & noexcept { ex::set_value((R&&)r); } };
  template <class R> op<R> connect(R r) const noexcept(NXC) { this->chk(); if constexpr (!NXC) throw_point(); return {(R&&)r}; }
};
template <bool NXC> struct Sch {                                  // a scheduler whose senders' connect may throw
  using scheduler_concept = ex::scheduler_tag;
  struct snd : Void<NXC> { struct attrs { auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return Sch{}; } }; attrs get_env() const noexcept { return {}; } };
  snd schedule() const noexcept { return {}; }
  bool operator==(Sch const&) const = default;
};
struct q_t { template <class E> requires requires(E const& e, q_t q) { e.query(q); } auto operator()(E const& e) const noexcept(noexcept(e.query(*this))) { return e.query(*this); } };
inline constexpr q_t q{};
template <bool NX> struct QEnv { auto query(q_t) const noexcept(NX) { if constexpr (!NX) throw_point(); return 5; } };

template <class T> constexpr bool is_eptr = std::is_same_v<std::decay_t<T>, std::exception_ptr>;
template <class> inline constexpr bool has_eptr = false;
template <class... S> inline constexpr bool has_eptr<ex::completion_signatures<S...>> = (std::is_same_v<S, ex::set_error_t(std::exception_ptr)> || ...);
template <class Env, class Snd> void judge(const char* what, Snd&& s, bool quiet_nothrow, Env env = {}) {
  // quiet_nothrow: every ingredient promises not to throw, so nothing may be advertised as, or become, an exception
  Rec rec; rec.name = what; rec.mode = (Mode)vrt::choose(3);
  arm(1 + (int)vrt::choose(5), 40 + (int)vrt::choose(50));
  G.moves_throw = true; copies_throw = vrt::chance(30);
  bool refused = false;
  try { connect<Env>(rec, (Snd&&)s, std::move(env)); } catch (Boom const& b) { refused = true; if (b.code != G.thrown.get()) vrt::fail("connect of %s throws something else", what); }
  if (refused) { vrt::observed(); vrt::cover("connect threw"); rec.op = nullptr; G.armed.set(0); return; }
  if (G.thrown.get()) vrt::fail("an exception thrown while %s was connected has disappeared", what);
  rec.start();
  int thrown = G.thrown.get(); G.armed.set(0);
  if (!rec.done()) vrt::fail("%s does not complete%s", what, thrown ? " after one of its ingredients threw" : "");
  if (thrown) { if (rec.ch.get() != ERROR || rec.code.get() != thrown) vrt::fail("%s completes with %s(%d) although an ingredient threw %d", what, chname(rec.ch.get()), rec.code.get(), thrown); if (!has_eptr<ex::completion_signatures_of_t<Snd, Env>>) vrt::fail("%s completes with an exception although its completion signatures do not contain one", what); vrt::cover("start threw"); }
  else vrt::cover("nothing threw");
  if (quiet_nothrow) vrt::cover("all noexcept");
  rec.finish();
}
template <bool A, bool B, bool C> void all() {
  // A: values and errors, B: functions, C: connecting senders
  constexpr bool none = A && B && C;
  using NE = NoEnv;
  S<SV, A, C> v; S<SE, A, C> e; S<SS, A, C> st; S<SV, A, true> v1; S<SE, A, true> e1; S<SS, A, true> st1; Void<C> nil; Void<true> nil1; Sch<C> sch;
  switch (vrt::choose(40)) {
  case 0: judge<NE>("then", ex::then(v, FI<B>{}), none); break;
  case 1: judge<NE>("upon_error", ex::upon_error(e, FI<B>{}), none); break;
  case 2: judge<NE>("upon_stopped", ex::upon_stopped(st, FI<B>{}), none); break;
  case 3: judge<NE>("let_value", ex::let_value(v1, F<B, Void<C>>{nil}), none); break;
  case 4: judge<NE>("let_error", ex::let_error(e1, F<B, Void<C>>{nil}), none); break;
  case 5: judge<NE>("let_stopped", ex::let_stopped(st1, F<B, Void<C>>{nil}), none); break;
  case 6: judge<NE>("let_value of nothing", ex::let_value(nil1, F<B, S<SV, A, C>>{v}), none); break;
  case 7: judge<NE>("let_value to an error", ex::let_value(v1, F<B, S<SE, A, C>>{e}), none); break;
  case 8: judge<NE>("bulk", ex::bulk(v, ex::seq, 2, FV<B>{}), none); break;
  case 9: judge<NE>("bulk_chunked", ex::bulk_chunked(v, ex::seq, 2, FV<B>{}), none); break;
  case 10: judge<NE>("bulk_unchunked", ex::bulk_unchunked(v, ex::seq, 2, FV<B>{}), none); break;
  case 11: judge<NE>("continues_on", ex::continues_on(v, sch), none); break;
  case 12: judge<NE>("continues_on with an error", ex::continues_on(e, sch), none); break;
  case 13: judge<NE>("continues_on with stopped", ex::continues_on(st, sch), none); break;
  case 14: judge<NE>("starts_on", ex::starts_on(sch, v), none); break;
  case 15: judge<NE>("when_all", ex::when_all(v, v1), none); break;
  case 16: judge<NE>("when_all with an error", ex::when_all(v, e), none); break;
  case 17: judge<NE>("into_variant", ex::into_variant(v), none); break;
  case 18: judge<NE>("stopped_as_optional", ex::stopped_as_optional(v), none); break;
  case 19: judge<NE>("stopped_as_error", ex::stopped_as_error(st, V<true>(6)), none); break;
  case 20: judge<NE>("sequence", exec::sequence(nil1, v), none); break;
  case 21: judge<NE>("sequence of three", exec::sequence(nil1, nil, v1), none); break;
  case 22: judge<NE>("finally", exec::finally(v, nil), none); break;
  case 23: judge<NE>("finally with an error", exec::finally(e, nil), none); break;
  case 24: judge<NE>("just_from", exec::just_from([f = FV<B>{}](auto sink) mutable noexcept(B) { f(); return sink(1); }), none); break;
  case 25: judge<QEnv<B>>("read_env", ex::read_env(q), none); break;
  case 26: judge<QEnv<B>>("read_with_default", exec::read_with_default(q, 3), none); break;
  case 27: judge<NE>("repeat_n", exec::repeat_n(nil, 3), none); break;
  case 28: judge<NE>("repeat_n with an error", exec::repeat_n(e, 3), none); break;
  case 29: { int n = 0; judge<NE>("repeat_until", exec::repeat_until(ex::then(nil, [&n]() noexcept { return ++n == 3; })), none); break; }
  case 30: judge<NE>("repeat_until with an error", exec::repeat_until(ex::let_value(nil, [e]() noexcept { return e; })), none); break;
  case 31: judge<NE>("when_any", exec::when_any(v, v1), none); break;
  case 32: judge<NE>("when_any with an error", exec::when_any(e, v1), none); break;
  case 33: judge<NE>("materialize", exec::materialize(v), none); break;
  case 34: judge<NE>("materialized and back", exec::dematerialize(exec::materialize(e)), none); break;
  case 35: judge<NE>("into_tuple", exec::into_tuple(v), none); break;
  case 36: { int n = 0; judge<NE>("repeat_until of a function", exec::repeat_until(ex::then(ex::then(nil, FV<B>{}), [&n]() noexcept { return ++n == 3; })), none); break; }
  case 37: judge<NE>("then that returns a value", ex::then(v, F<B, V<A>>{V<A>(7)}), none); break;
  case 38: judge<NE>("sequence with a failing start", exec::sequence(ex::then(v, FV<B>{}), nil), none); break;
  case 39: judge<NE>("then after continues_on", ex::then(ex::continues_on(v, sch), FI<B>{}), none); break;
  }
}
#ifndef PART
#define PART 0
#endif
#if PART == 0
VRT_SCENARIO_F(one_may_throw, vrt::F_SEQ, 10) {
#else
VRT_SCENARIO_F(several_may_throw, vrt::F_SEQ, 10) {
#endif
  mon::Run run;
#if PART == 0
  switch (vrt::choose(4)) { case 0: all<true, true, true>(); break; case 1: all<false, true, true>(); break; case 2: all<true, false, true>(); break; case 3: all<true, true, false>(); break; }
#else
  switch (vrt::choose(4)) { case 0: all<false, false, true>(); break; case 1: all<false, true, false>(); break; case 2: all<true, false, false>(); break; case 3: all<false, false, false>(); break; }
#endif
}
}  // namespace

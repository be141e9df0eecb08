// C24: environment expressions and their model.
#pragma once
#include "poly.hpp"
#include <exec/env.hpp>
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
namespace {
using namespace poly;
// ---- environment expressions: every shape up to depth 2 (and a sample of depth 3), against a model -------------------
// three queries: a forwarding int, a non-forwarding int, a forwarding owning value
struct qf_t { template <class E, class Q = qf_t> requires requires(E const& e, Q q) { e.query(q); } int operator()(E const& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct qn_t { template <class E, class Q = qn_t> requires requires(E const& e, Q q) { e.query(q); } int operator()(E const& e) const noexcept { return e.query(*this); } };
struct qv_t { template <class E, class Q = qv_t> requires requires(E const& e, Q q) { e.query(q); } decltype(auto) operator()(E const& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr qf_t qf{}; inline constexpr qn_t qn{}; inline constexpr qv_t qv{};
struct M { int f = -1, n = -1, v = -1; };          // the model: what each query answers (-1: nothing)
inline M over(M a, M b) { return {a.f >= 0 ? a.f : b.f, a.n >= 0 ? a.n : b.n, a.v >= 0 ? a.v : b.v}; }
inline M fwd(M a) { a.n = -1; return a; }
struct BadVal : NVal { using NVal::NVal; };
template <class E> struct EM { E e; M m; };
template <class E> EM(E, M) -> EM<E>;
int fresh() { return vrt::range(1, 100000); }
template <class E> void compare(E const& e, M m, const char* where) {
  auto one = [&](auto q, int want, const char* nm) {
    if constexpr (requires { q(e); }) {
      auto&& got = q(e); int g; if constexpr (std::is_same_v<std::decay_t<decltype(got)>, NVal>) g = got.get(); else g = got;
      if (want < 0) vrt::fail("%s: query %s is answered (%d) although nothing in the environment defines it or it is not forwarded", where, nm, g);
      if (g != want) vrt::fail("%s: query %s is answered %d, the nearest provider says %d", where, nm, g, want);
      vrt::observed();
    } else if (want >= 0) vrt::fail("%s: query %s is not answered although a provider says %d", where, nm, want);
  };
  one(qf, m.f, "forwarding"); one(qn, m.n, "non-forwarding"); one(qv, m.v, "owning");
}
struct Never {};
// leaves
template <class F> void leaf0(F f) { int a = fresh(); f([a] { return EM{ex::prop{qf, a}, M{a, -1, -1}}; }); }
template <class F> void leaf1(F f) { int a = fresh(); f([a] { return EM{ex::prop{qn, a}, M{-1, a, -1}}; }); }
template <class F> void leaf2(F f) { int a = fresh(); f([a] { return EM{ex::prop{qv, NVal(a)}, M{-1, -1, a}}; }); }
template <class F> void leaf3(F f) { int a = fresh(), b = fresh(); f([a, b] { return EM{ex::env{ex::prop{qf, a}, ex::prop{qn, b}}, M{a, b, -1}}; }); }
template <class F> void leaf4(F f) { int a = fresh(), b = fresh(); f([a, b] { return EM{exec::env_from{[a, b](auto q) noexcept requires std::is_same_v<decltype(q), qf_t> || std::is_same_v<decltype(q), qn_t> { return std::is_same_v<decltype(q), qf_t> ? a : b; }}, M{a, b, -1}}; }); }
template <class F> void leaf5(F f) { f([] { return EM{ex::env{}, M{}}; }); }
template <class F> void a_leaf(int i, F f) { switch (i) { case 0: leaf0(f); break; case 1: leaf1(f); break; case 2: leaf2(f); break; case 3: leaf3(f); break; case 4: leaf4(f); break; default: leaf5(f); } }
// binary and unary combinators
template <int OP, class A, class B> auto comb(A mk1, B mk2) {
  auto a = mk1(); auto b = mk2();
  if constexpr (OP == 0) return EM{ex::env{std::move(a.e), std::move(b.e)}, over(a.m, b.m)};
  else if constexpr (OP == 1) return EM{ex::__env::__join(std::move(a.e), std::move(b.e)), over(a.m, fwd(b.m))};
  else if constexpr (OP == 2) return EM{exec::make_env(std::move(a.e), std::move(b.e)), over(b.m, fwd(a.m))};
  else if constexpr (OP == 3) return EM{ex::env{ex::__fwd_env(std::move(a.e)), std::move(b.e)}, over(fwd(a.m), b.m)};
  else { M m = a.m; m.f = -1; return EM{ex::env{exec::without(std::move(a.e), qf), std::move(b.e)}, over(m, b.m)}; }
}
template <class F, class A, class B> void comb_at(int op, A a, B b, F f) {
  switch (op) {
    case 0: f([=] { return comb<0>(a, b); }); break; case 1: f([=] { return comb<1>(a, b); }); break; case 2: f([=] { return comb<2>(a, b); }); break;
    case 3: f([=] { return comb<3>(a, b); }); break; default: f([=] { return comb<4>(a, b); }); break;
  }
}
// an operation that looks at its environment when it is connected, started and before it completes
struct LookState { M want; const char* where; int looks = 0; };
template <class R> struct LookOp {
  using operation_state_concept = ex::operation_state_tag;
  R r; LookState* s;
  LookOp(R r_, LookState* s_) : r((R&&)r_), s(s_) { look(); }
  LookOp(LookOp&&) = delete;
  void look() { s->looks++; compare(ex::get_env(r), s->want, s->where); }
  void start() & noexcept { look(); auto e = ex::get_env(r); compare(e, s->want, s->where); ex::set_value((R&&)r); }
};
struct LookSnd { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>; LookState* s; template <class R> LookOp<R> connect(R r) const { return LookOp<R>((R&&)r, s); } };
template <class E> struct EnvRcv { using receiver_concept = ex::receiver_tag; E const* e; int* done; void set_value(auto&&...) noexcept { ++*done; } void set_error(auto&&) noexcept { vrt::fail("unexpected error"); } void set_stopped() noexcept { vrt::fail("unexpected stop"); } E const& get_env() const noexcept { return *e; } };
template <class S, class E> void drive(S&& s, E const& e, LookState& st) {
  int done = 0; { auto op = ex::connect((S&&)s, EnvRcv<E>{&e, &done}); ex::start(op); }
  if (done != 1 || st.looks < 2) vrt::fail("%s: the operation did not run", st.where);
}
// nested providers: the receiver's environment, write_env outside and inside, and adaptors between
template <int W, class A> auto between(A&& a) {
  if constexpr (W == 0) return (A&&)a;
  else if constexpr (W == 1) return ex::then((A&&)a, [] {});
  else if constexpr (W == 2) return ex::let_value(ex::just(), [a] { return a; });
  else if constexpr (W == 3) return exec::sequence(ex::just(), (A&&)a);
  else if constexpr (W == 4) return ex::when_all((A&&)a);
  else return exec::finally(ex::just(), (A&&)a);
}
template <int W> void nested() {
  mon::Run run;
  a_leaf(vrt::choose(5), [&](auto a) { a_leaf(vrt::choose(5), [&](auto b) {
    auto inner = a(); auto outer = b(); int x = fresh(); NVal own(x); int f = fresh();
    auto renv = ex::env{ex::prop{qf, f}, ex::prop{qv, own}};
    M rm{f, -1, x};
    LookState st{over(inner.m, over(fwd(outer.m), rm)), "an operation below two write_envs"};
    st.want.n = inner.m.n;
    // whether a non-forwarding query of an outer environment passes is left to the adaptors between: not asked here
    if (inner.m.n < 0 && outer.m.n >= 0) st.want.n = -2;
    if (st.want.n == -2) { auto inner2 = EM{ex::env{std::move(inner.e), ex::prop{qn, 5}}, M{}}; st.want.n = 5; drive(ex::write_env(between<W>(ex::write_env(LookSnd{&st}, std::move(inner2.e))), std::move(outer.e)), renv, st); }
    else drive(ex::write_env(between<W>(ex::write_env(LookSnd{&st}, std::move(inner.e))), std::move(outer.e)), renv, st);
  }); });
}
}  // namespace

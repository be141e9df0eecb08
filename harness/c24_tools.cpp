// C24: environments assembled with exec::with / without / make_env / env_from, ex::prop and ex::env, in every order, against a
// table of what each query has to answer; read directly, through read_env and read_with_default, and through write_env and
// write_attrs.
#include "mon.hpp"
#include <exec/env.hpp>
namespace {
using namespace mon;
// Q<0> and Q<1> are forwarding queries, Q<2> and Q<3> are not; Q<3> takes an argument
template <int I> struct Q {
  template <class E> requires requires(E const& e) { e.query(Q{}); } constexpr auto operator()(E const& e) const noexcept { return e.query(*this); }
  template <class E> requires requires(E const& e) { e.query(Q{}, 1); } constexpr auto operator()(E const& e, int a) const noexcept { return e.query(*this, a); }
  static constexpr bool query(ex::forwarding_query_t) noexcept { return I < 2; }
};
inline constexpr Q<0> q0{}; inline constexpr Q<1> q1{}; inline constexpr Q<2> q2{}; inline constexpr Q<3> q3{};
char path[4];
struct Table { int v[4] = {-1, -1, -1, -1}; void fwd() { v[2] = v[3] = -1; } /* joined in second place: only forwarding queries are passed on */ };
template <int I> struct One { int x; constexpr int query(Q<I>) const noexcept { return x; } };
struct Arg { int x; constexpr int query(Q<3>, int a) const noexcept { return x + a; } };
template <int I, class E> void ask(E const& e, Table const& t, const char* how) {
  constexpr bool has = I == 3 ? requires { e.query(Q<3>{}, 1); } : requires { e.query(Q<I>{}); };
  if (has != (t.v[I] >= 0)) vrt::fail("%s (steps %c%c): query %d is %s", how, path[2], path[1], I, has ? "answered although it was taken out" : "not answered although it was put in");
  if constexpr (has) { int got; if constexpr (I == 3) got = e.query(Q<3>{}, 1) - 1; else got = e.query(Q<I>{}); if (got != t.v[I]) vrt::fail("%s: query %d answers %d, expected %d", how, I, got, t.v[I]); vrt::observed(); }
}
template <int I, class E> int answer_or(E const& e, int d) { if constexpr (requires { e.query(Q<I>{}); }) return e.query(Q<I>{}); else return d; }
template <class S> int value_of(S&& s, const char* what, int def = -1) { Rec r; r.name = what; r.mode = (Mode)vrt::choose(3); mon::connect<NoEnv>(r, (S&&)s); r.start(); expect(r, VALUE); int v = r.n.get() == 1 ? r.v[0].get() : def; r.finish(); return v; }
template <class E> void check_env(E const& e, Table const& t) { ask<0>(e, t, "the environment"); ask<1>(e, t, "the environment"); ask<2>(e, t, "the environment"); ask<3>(e, t, "the environment"); }
// the environment is what a sender sees: directly, below write_env, below an adaptor (which passes on forwarding queries only)
template <class E> void check(E e, Table const& t) {
  check_env(e, t);  { auto copy = e; ask<0>(copy, t, "a copy"); ask<2>(copy, t, "a copy"); auto moved = std::move(copy); ask<1>(moved, t, "a moved copy"); }
  [&]<int... I>(std::integer_sequence<int, I...>) {
    ([&] {
      int want = t.v[I] >= 0 ? t.v[I] : 900 + I;
      int got = value_of(ex::write_env(exec::read_with_default(Q<I>{}, 900 + I), e), "read_with_default");
      if (got != want) vrt::fail("read_with_default of query %d produced %d, expected %d", I, got, want);
      if constexpr (requires { e.query(Q<I>{}); }) { int g2 = value_of(ex::write_env(ex::read_env(Q<I>{}), e), "read_env"); if (g2 != want) vrt::fail("read_env of query %d produced %d, expected %d", I, g2, want); }
      // below another environment, which is asked second
      int g3 = value_of(ex::write_env(ex::write_env(exec::read_with_default(Q<I>{}, 900 + I), e), One<I>{800}), "nested write_env");
      if (g3 != (t.v[I] >= 0 ? t.v[I] : I < 2 ? 800 : 900 + I)) vrt::fail("below two environments query %d produced %d", I, g3);
      int g4 = value_of(ex::write_env(ex::write_env(exec::read_with_default(Q<I>{}, 900 + I), One<I>{800}), e), "nested write_env");
      if (g4 != 800) vrt::fail("the inner of two environments is ignored: query %d produced %d", I, g4);
      // as the attributes of a sender
      auto s = exec::write_attrs(ex::just(7), e);
      if (answer_or<I>(ex::get_env(s), 900 + I) != want) vrt::fail("write_attrs: query %d answers %d, expected %d", I, answer_or<I>(ex::get_env(s), 900 + I), want);
      auto s2 = exec::write_attrs(exec::write_attrs(ex::just(7), One<I>{801}), e);
      if (answer_or<I>(ex::get_env(s2), 0) != (t.v[I] >= 0 ? t.v[I] : I < 2 ? 801 : 0)) vrt::fail("write_attrs over write_attrs: query %d answers %d", I, answer_or<I>(ex::get_env(s2), 0));
      auto s3 = ex::just(7) | exec::write_attrs(e) | exec::write_attrs(One<I>{801});
      if (answer_or<I>(ex::get_env(s3), 0) != 801) vrt::fail("the outer of two attributes is ignored: query %d answers %d", I, answer_or<I>(ex::get_env(s3), 0));
      if (value_of(std::move(s), "write_attrs") != 7 || value_of(std::move(s2), "write_attrs") != 7 || value_of(s3, "write_attrs") != 7) vrt::fail("write_attrs changed the value of its sender");
    }(), ...);
  }(std::integer_sequence<int, 0, 1, 2>{});
  vrt::cover("environments");
}
template <int Depth, bool Senders = false, class E> void grow(E e, Table t) {
  if constexpr (Depth == 0) { check_env(e, t); if constexpr (Senders) check(std::move(e), t); }
  else {
    int x = vrt::range(0, 500), y = vrt::range(0, 500), k = vrt::choose(9);
    path[Depth] = "0123456789"[k];
    switch (k) {
    case 0: t.fwd(); t.v[0] = x; grow<Depth - 1, Senders>(exec::make_env(std::move(e), exec::with(q0, x)), t); break;
    case 1: t.fwd(); t.v[2] = x; grow<Depth - 1, Senders>(exec::make_env(std::move(e), exec::with(q2, x)), t); break;
    case 2: t.fwd(); t.v[0] = x; t.v[1] = y; grow<Depth - 1, Senders>(exec::make_env(std::move(e), ex::env{exec::with(q0, x), One<1>{y}}), t); break;
    case 3: t.v[0] = -1; grow<Depth - 1, Senders>(exec::without(std::move(e), q0), t); break;
    case 4: t.v[2] = -1; grow<Depth - 1, Senders>(exec::without(std::move(e), q2), t); break;
    case 5: t.fwd(); t.v[1] = x; t.v[3] = y; grow<Depth - 1, Senders>(exec::make_env(std::move(e), exec::env_from{[x, y]<class QQ, class... A>(QQ, A... a) noexcept -> int requires ((std::is_same_v<QQ, Q<1>> && sizeof...(A) == 0) || (std::is_same_v<QQ, Q<3>> && sizeof...(A) == 1)) { if constexpr (sizeof...(A)) return y + (a + ...); else return x; }}), t); break;
    case 6: t.v[3] = x; grow<Depth - 1, Senders>(ex::env{Arg{x}, std::move(e)}, t); break;
    case 7: if (t.v[0] < 0) t.v[0] = x; if (t.v[2] < 0) t.v[2] = y; grow<Depth - 1, Senders>(ex::env{std::move(e), One<0>{x}, One<2>{y}}, t); break;
    case 8: grow<Depth - 1, Senders>(exec::make_env(std::move(e)), t); break;
    }
  }
}
VRT_SCENARIO_F(assembled_environments, vrt::F_SEQ, 10) {
  mon::Run run; Table t; int x = vrt::range(0, 500), y = vrt::range(0, 500);
  path[1] = path[2] = '-';
  switch (vrt::choose(4)) {
  case 0: grow<2>(ex::env<>{}, t); break;
  case 1: t.v[0] = x; t.v[2] = y; grow<2>(ex::env{One<0>{x}, One<2>{y}}, t); break;
  case 2: t.v[0] = x; t.v[2] = y; grow<1, true>(ex::env{One<0>{x}, One<2>{y}}, t); break;
  case 3: t.v[1] = x; t.v[3] = y; grow<1, true>(ex::env{exec::with(q1, x), Arg{y}}, t); break;
  }
}
// queries that may throw, and queries that answer with a reference
struct T_t { template <class E> requires requires(E const& e, T_t q) { e.query(q); } int operator()(E const& e) const { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct R_t { template <class E> requires requires(E const& e, R_t q) { e.query(q); } NVal& operator()(E const& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct Throwing { int x, code; int query(T_t) const { if (code) throw Boom{code}; return x; } };
struct Ref { NVal* p; NVal& query(R_t) const noexcept { return *p; } };
VRT_SCENARIO_F(throwing_queries, vrt::F_SEQ, 2) {
  mon::Run run; int x = vrt::range(0, 500), code = vrt::chance(40) ? vrt::range(1, 50) : 0, k = vrt::choose(5); NVal held(x);
  Rec r; r.mode = (Mode)vrt::choose(3);
  auto e = ex::env{Throwing{x, code}, Ref{&held}};
  auto go = [&](auto s, int c, int v) { mon::connect<NoEnv>(r, std::move(s)); r.start(); if (c) { expect(r, ERROR, c); vrt::cover("a query throws"); } else expect_values(r, {v}); r.finish(); };
  switch (k) {
  case 0: go(ex::write_env(ex::read_env(T_t{}), e), code, x); break;
  case 1: go(ex::write_env(exec::read_with_default(T_t{}, 777), e), code, x); break;
  case 2: go(exec::read_with_default(T_t{}, 777), 0, 777); break;
  case 3: go(ex::write_env(ex::read_env(R_t{}), e) | ex::then([&](NVal& g) { if (&g != &held) vrt::fail("read_env of a reference delivers another object"); return Val(g.get()); }), 0, x); vrt::cover("reference query"); break;
  case 4: go(ex::just(Val(3)) | ex::let_value([&](Val&) { return ex::write_env(ex::write_env(ex::read_env(T_t{}), Throwing{x, code}), Throwing{900, 901}); }), code, x); break;
  }
}
}  // namespace

// C24: attributes.  What a sender says about itself through a forwarding query, its adaptors say as well; a query that is
// not forwarding stays hidden.
#include "c24_env.hpp"
#include <exec/reschedule.hpp>
namespace {
struct qa_t { template <class E, class Q = qa_t> requires requires(E const& e, Q q) { e.query(q, 0); } int operator()(E const& e, int x) const { return e.query(*this, x); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
inline constexpr qa_t qa{};
struct Attrs { int f, n, v; int query(qf_t) const noexcept { return f; } int query(qn_t) const noexcept { return n; } NVal query(qv_t) const noexcept { return NVal(v); } int query(qa_t, int x) const { return f ^ x; } };
template <class... Sigs> struct Src {
  using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<Sigs...>;
  Attrs a;
  template <class R> struct op { void start() noexcept {} };
  template <class R> op<R> connect(R) const { return {}; }
  Attrs get_env() const noexcept { return a; }
};
using V = Src<ex::set_value_t(), ex::set_error_t(int), ex::set_stopped_t()>;
using VI = Src<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>;
const char* around;
template <class S> void judge(S const& s, Attrs a, const char* what) {
  auto e = ex::get_env(s);
  auto fail = [&](const char* q, int got, int want) { vrt::fail("attributes of %s around %s: query %s is answered %d, the sender it adapts says %d", what, around, q, got, want); };
  auto none = [&](const char* q) { vrt::fail("attributes of %s around %s: forwarding query %s is not answered", what, around, q); };
  if constexpr (requires { qf(e); }) { int g = qf(e); if (g != a.f) fail("forwarding", g, a.f); vrt::observed(); } else none("forwarding");
  if constexpr (requires { qv(e); }) { auto x = qv(e); int g = x.get(); if (g != a.v) fail("owning", g, a.v); vrt::observed(); } else none("owning");
  if constexpr (requires { qa(e, 0); }) { int x = vrt::range(0, 1000), g = qa(e, x); if (g != (a.f ^ x)) fail("with an argument", g, a.f ^ x); vrt::observed(); } else none("with an argument");
  if constexpr (requires { qn(e); }) vrt::fail("attributes of %s around %s: a query that is not forwarding is answered", what, around);
}
// what adapts a sender without a value
template <class S> void adapt(S const& s, Attrs a, const char* in) {
  around = in;
  ex::run_loop loop; auto sch = loop.get_scheduler();
  switch (vrt::choose(18)) {
  case 0: judge(ex::then(s, [] {}), a, "then"); break;
  case 1: judge(ex::upon_error(s, [](auto&&) {}), a, "upon_error"); break;
  case 2: judge(ex::upon_stopped(s, [] {}), a, "upon_stopped"); break;
  case 3: judge(ex::let_value(s, [] { return ex::just(); }), a, "let_value"); break;
  case 4: judge(ex::let_error(s, [](auto&&) { return ex::just(); }), a, "let_error"); break;
  case 5: judge(ex::let_stopped(s, [] { return ex::just(); }), a, "let_stopped"); break;
  case 6: judge(ex::bulk(s, ex::par, 3, [](int) {}), a, "bulk"); break;
  case 7: judge(ex::bulk_chunked(s, ex::par, 3, [](int, int) {}), a, "bulk_chunked"); break;
  case 8: judge(ex::into_variant(s), a, "into_variant"); break;
  case 9: judge(ex::stopped_as_error(s, 3), a, "stopped_as_error"); break;
  case 10: judge(ex::write_env(s, ex::prop{ex::get_stop_token, ex::never_stop_token{}}), a, "write_env"); break;
  case 11: judge(ex::unstoppable(s), a, "unstoppable"); break;
  case 12: judge(ex::continues_on(s, sch), a, "continues_on"); break;
  case 13: judge(ex::starts_on(sch, s), a, "starts_on"); break;
  case 14: judge(ex::on(sch, s), a, "on"); break;
  case 15: judge(ex::on(s, sch, ex::then([] {})), a, "on with a closure"); break;
  case 16: judge(ex::affine(s), a, "affine"); break;
  case 17: { V other{{a.f + 1, a.n + 1, a.v + 1}}; if (vrt::choose(2)) judge(exec::sequence(other, s), a, "sequence"); else judge(exec::sequence(other, ex::just(), s), a, "sequence of three"); break; }
  }
  loop.finish(); loop.run();
}
VRT_SCENARIO_F(attributes, vrt::F_SEQ, 6) {
  mon::Run run;
  Attrs a{fresh(), fresh(), fresh()}; V s{a};
  switch (vrt::choose(5)) {
  case 0: adapt(s, a, "a sender"); break;
  case 1: adapt(ex::then(s, [] {}), a, "then"); break;
  case 2: adapt(ex::affine(s), a, "affine"); break;
  case 3: adapt(exec::sequence(ex::just(), s), a, "sequence"); break;
  case 4: { around = "a sender"; VI i{a}; if (vrt::choose(2)) judge(ex::stopped_as_optional(i), a, "stopped_as_optional"); else judge(ex::then(ex::then(i, [](int x) { return x; }), [](int) {}), a, "two thens"); break; }
  }
}
}  // namespace

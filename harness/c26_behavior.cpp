// C26: completion behaviour.  A sender's attributes may promise that it completes inline (before start() returns, where it
// was started), on the context that started it, or asynchronously (not before start() returns).  Random compositions of
// leaves that keep their promises are run on two simulated execution contexts; the promise of the composition is compared
// with what it does.
#include "mon.hpp"
#include <exec/completion_behavior.hpp>
#include <exec/finally.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <exec/when_any.hpp>
#include <deque>
#include <functional>
namespace {
using namespace mon;
using CB = ex::__completion_behavior;
int now_on;                                        // the simulated context that is executing
std::deque<std::function<void()>>* q;            // what waits on each context
bool drain() {
  bool any = false;
  while (!q[0].empty() || !q[1].empty()) {
    int c = q[0].empty() ? 1 : q[1].empty() ? 0 : vrt::choose(2);
    auto f = std::move(q[c].front()); q[c].pop_front(); now_on = c; f(); any = true;
  }
  return any;
}
void submit(int ctx, std::function<void()> f) { q[ctx].push_back(std::move(f)); }

// the promises a leaf can make
struct In { static constexpr auto v = CB::__inline_completion; };
struct Af { static constexpr auto v = CB::__asynchronous_affine; };
struct As { static constexpr auto v = CB::__asynchronous; };
struct AI { static constexpr auto v = CB::__asynchronous_affine | CB::__inline_completion; };
struct Un { static constexpr auto v = CB::__unknown; };
template <class K> void keep(std::function<void()> f) {      // completes as promised by K
  constexpr bool in = !CB::__is_always_asynchronous(K::v), as = CB::__may_be_asynchronous(K::v), af = CB::__is_affine(K::v);
  int here = now_on;
  if (in && (!as || vrt::choose(2))) f(); else submit(af ? here : (int)vrt::choose(2), std::move(f));
}
template <class KV, class KE, class KS, class... Sigs> struct L {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<Sigs...>;
  static constexpr bool has_e = (std::is_same_v<Sigs, ex::set_error_t(int)> || ...), has_s = (std::is_same_v<Sigs, ex::set_stopped_t()> || ...);
  static constexpr bool uniform = (!has_e || KV::v == KE::v) && (!has_s || KV::v == KS::v);   // the same promise on every channel
  static constexpr bool anchored = KV::v == CB::__inline_completion && KE::v == KV::v && KS::v == KV::v;
  struct attrs {
    constexpr auto query(ex::__get_completion_behavior_t<ex::set_value_t>) const noexcept { return KV::v; }
    constexpr auto query(ex::__get_completion_behavior_t<ex::set_error_t>) const noexcept { return KE::v; }
    constexpr auto query(ex::__get_completion_behavior_t<ex::set_stopped_t>) const noexcept { return KS::v; }
  };
  template <class R> struct op {
    R r;
    void start() & noexcept {
      int c = vrt::choose(has_e + has_s + 1);
      if (c == 0) keep<KV>([this] { ex::set_value((R&&)r, 7); });
      else if (has_e && c == 1) { if constexpr (has_e) keep<KE>([this] { ex::set_error((R&&)r, 9); }); }
      else if constexpr (has_s) keep<KS>([this] { ex::set_stopped((R&&)r); });
    }
  };
  template <class R> op<R> connect(R r) const { return {std::move(r)}; }
  attrs get_env() const noexcept { return {}; }
};
using sv = ex::set_value_t(int); using se = ex::set_error_t(int); using ss = ex::set_stopped_t();
// a scheduler of simulated context `ctx`
struct Sch {
  int ctx;
  using scheduler_concept = ex::scheduler_tag;
  struct snd {
    using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    int ctx;
    struct attrs { int ctx; auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return Sch{ctx}; } constexpr auto query(ex::__get_completion_behavior_t<ex::set_value_t>) const noexcept { return CB::__asynchronous; } };
    template <class R> struct op { R r; int ctx; void start() & noexcept { submit(ctx, [this] { ex::set_value((R&&)r); }); } };
    template <class R> op<R> connect(R r) const noexcept { return {std::move(r), ctx}; }
    attrs get_env() const noexcept { return {ctx}; }
  };
  snd schedule() const noexcept { return {ctx}; }
  bool operator==(Sch const&) const = default;
};
struct Env { Sch sch; auto query(ex::get_scheduler_t) const noexcept { return sch; } auto query(ex::get_start_scheduler_t) const noexcept { return sch; } };
template <class Tag, class... Sigs> constexpr bool sends(ex::completion_signatures<Sigs...>) { return ([]<class T, class... A>(T (*)(A...)) { return std::is_same_v<T, Tag>; }((Sigs*)nullptr) || ...); }

struct Seen { int n = 0, ch = 0, ctx = -1, start_ctx = -1; bool in_start = false, starting = false; } seen;
struct R {
  using receiver_concept = ex::receiver_tag;
  Env env;
  void done(int ch) noexcept { if (seen.n++) vrt::fail("completed twice"); seen.ch = ch; seen.ctx = now_on; seen.in_start = seen.starting; vrt::observed(); }
  void set_value(auto&&...) noexcept { done(VALUE); }
  void set_error(auto&&) noexcept { done(ERROR); }
  void set_stopped() noexcept { done(STOPPED); }
  Env get_env() const noexcept { return env; }
};
template <class B> const char* says(B) {
  if (B::value == CB::__inline_completion) return "inline";
  if (B::value == CB::__asynchronous_affine) return "asynchronous on the starting context";
  if (B::value == CB::__asynchronous) return "asynchronous";
  return CB::__is_affine(B{}) ? "on the starting context" : "anything";
}
bool mixed;                                        // the subject combines the channels of children whose promises differ by channel
template <class B> void promise(B b, const char* what, const char* form) {
  bool in = seen.in_start && seen.ctx == seen.start_ctx;
  if (mixed && ((!CB::__may_be_asynchronous(b) && !in) || (CB::__is_affine(b) && seen.ctx != seen.start_ctx) || (CB::__is_always_asynchronous(b) && seen.in_start)) && KNOWN_FINDING("C26-mixed-channels")) return;
  if (!CB::__may_be_asynchronous(b) && !in) vrt::fail("%s promises (%s) to complete inline with %s, but completes %s", what, form, chname(seen.ch), seen.in_start ? "on another context" : "after start() has returned");
  if (CB::__is_affine(b) && seen.ctx != seen.start_ctx) vrt::fail("%s promises (%s: %s) to complete with %s on the context that started it, but completes on another one", what, form, says(b), chname(seen.ch));
  if (CB::__is_always_asynchronous(b) && seen.in_start) vrt::fail("%s promises (%s: %s) to complete asynchronously with %s, but completes before start() returns", what, form, says(b), chname(seen.ch));
  vrt::cover(says(b));
}
template <class S> void judge(const char* what, S s) {
  std::deque<std::function<void()>> queues[2]; q = queues; seen = {};
  int home = vrt::choose(2); Env env{Sch{home}};
  {
    auto op = ex::connect(s, R{env});
    now_on = seen.start_ctx = home; seen.starting = true; ex::start(op); seen.starting = false;
    drain();
  }
  if (seen.n != 1) vrt::fail("%s completed %d times", what, seen.n);
  auto each = [&]<class Tag>(Tag) { promise(std::integral_constant<CB::__behavior, (CB::__behavior)ex::__get_completion_behavior<Tag, S, Env>()>(), what, "with the environment"); promise(std::integral_constant<CB::__behavior, (CB::__behavior)exec::get_completion_behavior<Tag, S>()>(), what, "without an environment"); };
  if (seen.ch == VALUE) each(ex::set_value); else if (seen.ch == ERROR) each(ex::set_error); else each(ex::set_stopped);
}
#ifndef PART
#define PART 0
#endif
template <class X> void unary(X x) {
  mixed = false; int b = vrt::choose(2); Sch s{b}; exec::trampoline_scheduler tramp;
  switch (vrt::choose(23)) {
  case 0: judge("a leaf", x); break;
  case 1: judge("then", ex::then(x, [](int) noexcept {})); break;
  case 2: mixed = !X::uniform; judge("upon_error", ex::upon_error(x, [](int) noexcept { return 1; })); break;
  case 3: mixed = !X::uniform; judge("upon_stopped", ex::upon_stopped(x, []() noexcept { return 1; })); break;
  case 4: judge("bulk", ex::bulk(x, ex::seq, 2, [](int, int) noexcept {})); break;
  case 5: judge("bulk_chunked", ex::bulk_chunked(x, ex::par, 2, [](int, int, int) noexcept {})); break;
  case 6: judge("bulk_unchunked", ex::bulk_unchunked(x, ex::par, 2, [](int, int) noexcept {})); break;
  case 7: judge("into_variant", ex::into_variant(x)); break;
  case 8: judge("stopped_as_error", ex::stopped_as_error(x, 3)); break;
  case 9: mixed = !X::uniform; judge("stopped_as_optional", ex::stopped_as_optional(x)); break;
  case 10: judge("write_env", ex::write_env(x, ex::prop{ex::get_stop_token, ex::never_stop_token{}})); break;
  case 11: judge("unstoppable", ex::unstoppable(x)); break;
  case 12: judge("continues_on", ex::continues_on(x, s)); break;
  case 13: judge("continues_on the inline scheduler", ex::continues_on(x, ex::inline_scheduler{})); break;
  case 14: judge("starts_on", ex::starts_on(s, x)); break;
  case 15: judge("starts_on the inline scheduler", ex::starts_on(ex::inline_scheduler{}, x)); break;
  case 16: judge("on", ex::on(s, x)); break;
  case 17: if constexpr (X::anchored) judge("on with a closure", ex::on(x, s, ex::then([](int) noexcept {}))); break;
  case 18: judge("affine", ex::affine(x)); break;
  case 19: judge("when_all of one", ex::when_all(x)); break;
  case 20: judge("sequence of one", exec::sequence(x)); break;
  case 21: judge("materialize", exec::materialize(x)); break;
  case 22: judge("continues_on the trampoline scheduler", ex::continues_on(x, tramp)); break;
  }
}
template <class X, class Y> void binary(X x, Y y) {
  mixed = false;
  switch (vrt::choose(14)) {
  case 0: judge("let_value", ex::let_value(x, [=](int&) noexcept { return y; })); break;
  case 1: judge("let_error", ex::let_error(x, [=](int&) noexcept { return y; })); break;
  case 2: judge("let_stopped", ex::let_stopped(x, [=]() noexcept { return y; })); break;
  case 3: mixed = !X::uniform || !Y::uniform; judge("sequence", exec::sequence(ex::then(x, [](int) noexcept {}), y)); break;
  case 4: mixed = !X::uniform || !Y::uniform; judge("sequence of three", exec::sequence(ex::then(x, [](int) noexcept {}), ex::just(), y)); break;
  case 5: mixed = !X::uniform || !Y::uniform; judge("when_all", ex::when_all(x, y)); break;
  case 6: judge("when_any", exec::when_any(x, y)); break;
  case 7: judge("finally", exec::finally(x, ex::then(y, [](int) noexcept {}))); break;
  case 8: judge("affine let_value", ex::affine(ex::let_value(x, [=](int&) noexcept { return y; }))); break;
  case 9: judge("then let_value", ex::then(ex::let_value(x, [=](int&) noexcept { return y; }), [](int) noexcept {})); break;
  case 10: judge("affine let_error", ex::affine(ex::let_error(x, [=](int&) noexcept { return y; }))); break;
  case 11: mixed = !X::uniform || !Y::uniform; judge("affine sequence", ex::affine(exec::sequence(ex::then(x, [](int) noexcept {}), y))); break;
  case 12: mixed = !X::uniform || !Y::uniform; judge("affine when_all", ex::affine(ex::when_all(x, y))); break;
  case 13: judge("affine let_stopped", ex::affine(ex::let_stopped(x, [=]() noexcept { return y; }))); break;
  }
}
#if PART == 0
VRT_SCENARIO_F(behavior_unary, vrt::F_SEQ, 8) {
  mixed = false;
  switch (vrt::choose(10)) {
  case 0: unary(L<In, In, In, sv, se, ss>{}); break;
  case 1: unary(L<Af, Af, Af, sv, se, ss>{}); break;
  case 2: unary(L<As, As, As, sv, se, ss>{}); break;
  case 3: unary(L<AI, AI, AI, sv, se, ss>{}); break;
  case 4: unary(L<Un, Un, Un, sv, se, ss>{}); break;
  case 5: unary(L<In, As, Af, sv, se, ss>{}); break;
  case 6: unary(L<As, In, In, sv, se, ss>{}); break;
  case 7: unary(L<Af, In, As, sv, se, ss>{}); break;
  case 8: switch (vrt::choose(7)) {
    case 0: judge("just", ex::just(1, 2)); break;
    case 1: judge("just_error", ex::just_error(1)); break;
    case 2: judge("just_stopped", ex::just_stopped()); break;
    case 3: judge("read_env", ex::read_env(ex::get_scheduler)); break;
    case 4: judge("just_from", exec::just_from([](auto sink) noexcept { return sink(1); })); break;
    case 5: judge("schedule on the inline scheduler", ex::schedule(ex::inline_scheduler{})); break;
    case 6: judge("schedule on the trampoline scheduler", ex::schedule(exec::trampoline_scheduler{})); break;
    } break;
  case 9: { judge("schedule", ex::schedule(Sch{(int)vrt::choose(2)})); break; }
  }
}
#else
VRT_SCENARIO_F(behavior_binary, vrt::F_SEQ, 8) {
  L<In, In, In, sv, se, ss> in3; L<Af, Af, Af, sv, se, ss> af3; L<In, In, In, sv> in1; L<Af, Af, Af, sv> af1; L<As, As, As, sv> as1; L<As, In, Af, sv, se, ss> mix; L<AI, As, In, sv, se> mix2;
  switch (vrt::choose(7)) {
  case 0: binary(in3, af3); break;
  case 1: binary(in1, as1); break;
  case 2: binary(in1, af1); break;
  case 3: binary(af3, in3); break;
  case 4: binary(af3, as1); break;
  case 5: binary(mix, in1); break;
  case 6: binary(in3, mix2); break;
  }
}
#endif
}  // namespace

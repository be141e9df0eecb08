// C04: how functions are invoked and how results are passed on: the value category and the identity of what a sender sends,
// seen by functions and receivers behind every adaptor.
#include "mon.hpp"
#include <exec/finally.hpp>
#include <exec/sequence.hpp>
#include <exec/split.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/when_any.hpp>
#include <exec/variant_sender.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/into_tuple.hpp>
namespace {
using namespace mon;
// a value that counts its copies and moves; where it lives can be compared
struct Obj : NVal {
  int copies = 0, moves = 0;
  explicit Obj(int x) noexcept : NVal(x) {}
  Obj(Obj const& o) noexcept : NVal((NVal const&)o), copies(o.copies + 1), moves(o.moves) {}
  Obj(Obj&& o) noexcept : NVal((NVal&&)o), copies(o.copies), moves(o.moves + 1) {}
};
enum Cat { L = 'L', C = 'C', R = 'R', K = 'K', P = 'P' };   // &, const&, &&, const&&, by value (prvalue signature)
template <Cat A> struct sig_arg;
template <> struct sig_arg<L> { using t = Obj&; }; template <> struct sig_arg<C> { using t = Obj const&; }; template <> struct sig_arg<R> { using t = Obj&&; };
template <> struct sig_arg<K> { using t = Obj const&&; }; template <> struct sig_arg<P> { using t = Obj; };
// what somebody was given
struct Seen {
  int calls = 0, cat = 0, fcat = 0, copies = 0, moves = 0, val = 0; void const* at = nullptr;
  void note(int c, Obj const& o) noexcept { calls++; cat = c; copies = o.copies; moves = o.moves; at = &o; val = o.get(); }
};
struct Probe { Seen* s; void operator()(Obj& o) const noexcept { s->note(L, o); } void operator()(Obj const& o) const noexcept { s->note(C, o); } void operator()(Obj&& o) const noexcept { s->note(R, o); } void operator()(Obj const&& o) const noexcept { s->note(K, o); } };
// a function that knows how it was invoked
struct Fn : Tracked {
  Seen* s; explicit Fn(Seen* x) noexcept : s(x) {}
  template <class... A> void seen(int f, A&&... a) const noexcept { chk(); s->fcat = f; if constexpr (sizeof...(A) == 0) s->calls++; else (Probe{s}((A&&)a), ...); }
  template <class... A> int operator()(A&&... a) & noexcept { seen(L, (A&&)a...); return 4; }
  template <class... A> int operator()(A&&... a) const& noexcept { seen(C, (A&&)a...); return 4; }
  template <class... A> int operator()(A&&... a) && noexcept { seen(R, (A&&)a...); return 4; }
  template <class... A> int operator()(A&&... a) const&& noexcept { seen(K, (A&&)a...); return 4; }
};
struct FnS : Fn {
  using Fn::Fn;
  template <class... A> auto operator()(A&&... a) & noexcept { seen(L, (A&&)a...); return ex::just(); }
  template <class... A> auto operator()(A&&... a) const& noexcept { seen(C, (A&&)a...); return ex::just(); }
  template <class... A> auto operator()(A&&... a) && noexcept { seen(R, (A&&)a...); return ex::just(); }
  template <class... A> auto operator()(A&&... a) const&& noexcept { seen(K, (A&&)a...); return ex::just(); }
};
// sends one object it keeps in its operation, with a given category, on a given channel
template <class Tag, Cat A> struct Src {
  using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<Tag(typename sig_arg<A>::t)>;
  int x; void const** at;
  template <class Rc> struct op {
    Rc r; Obj o; void const** at;
    op(Rc&& r_, int x, void const** a) noexcept : r((Rc&&)r_), o(x), at(a) {}
    op(op&&) = delete;
    void start() & noexcept { *at = &o; if constexpr (A == P || A == R) Tag{}((Rc&&)r, std::move(o)); else if constexpr (A == L) Tag{}((Rc&&)r, o); else if constexpr (A == C) Tag{}((Rc&&)r, std::as_const(o)); else Tag{}((Rc&&)r, std::move(std::as_const(o))); }
  };
  template <class Rc> op<Rc> connect(Rc r) const noexcept { return {(Rc&&)r, x, at}; }
};
struct Rc {
  using receiver_concept = ex::receiver_tag;
  Seen* s; int* ch;
  void set_value(auto&&... a) noexcept { *ch = VALUE; if constexpr (sizeof...(a) == 1) one((decltype(a)&&)a...); else s->calls++; }
  template <class A> void one(A&& a) noexcept { if constexpr (std::derived_from<std::decay_t<A>, Obj>) Probe{s}((A&&)a); else s->calls++; }
  void set_error(auto&& e) noexcept { *ch = ERROR; one((decltype(e)&&)e); }
  void set_stopped() noexcept { *ch = STOPPED; s->calls++; }
};
// run a sender and tell what its receiver saw
template <class S> Seen final_of(S&& s, int* ch) { Seen r; *ch = 0; struct box { ex::connect_result_t<S, Rc> op; }; auto* b = new box{ex::connect((S&&)s, Rc{&r, ch})}; ex::start(b->op); delete b; if (r.calls != 1) vrt::fail("%d completions", r.calls); vrt::observed(); return r; }
const char* what; int value; void const* src_at;
void category(const char* who, Seen& s, int cat) { if (s.calls != 1) vrt::fail("%s: %s was called %d times", what, who, s.calls); if (s.cat != cat) vrt::fail("%s: %s was given %c, expected %c", what, who, s.cat, cat); if (s.val != value) vrt::fail("%s: %s was given %d, expected %d", what, who, s.val, value); }
void same(const char* who, Seen& s) { if (s.at != src_at || s.copies || s.moves) vrt::fail("%s: %s was given another object (%d copies, %d moves) instead of the one that was sent", what, who, s.copies, s.moves); }
void invoked(Seen& s, int f) { if (s.fcat != f) vrt::fail("%s: the function was invoked as %c, expected %c", what, s.fcat, f); }
template <Cat A> constexpr int arrives = A == P ? (int)R : (int)A;
template <class Tag, Cat A> void one() {
  using V = ex::set_value_t; using E = ex::set_error_t;
  Src<Tag, A> src{value, &src_at}; Seen f; int ch; Fn fn{&f}; FnS fs{&f};
  constexpr bool value_ch = std::is_same_v<Tag, V>;
  if constexpr (value_ch) switch (vrt::choose(13)) {
  case 0: { what = "then"; final_of(ex::then(src, fn), &ch); category("the function", f, arrives<A>); same("the function", f); invoked(f, R); break; }
  case 1: { what = "then that returns what it is given"; auto s = final_of(ex::then(src, [](auto&& o) noexcept -> decltype(o) { return (decltype(o)&&)o; }), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 2: { what = "let_value"; final_of(ex::let_value(src, fs), &ch); category("the function", f, L); invoked(f, R); if (f.copies + f.moves != 1) vrt::fail("let_value made %d copies and %d moves of its argument", f.copies, f.moves); if (f.copies != (A == P || A == R ? 0 : 1)) vrt::fail("let_value made %d copies", f.copies); break; }
  case 3: { what = "upon_error of a value"; auto s = final_of(ex::upon_error(src, fn), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 4: { what = "upon_stopped of a value"; auto s = final_of(ex::upon_stopped(src, fn), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 5: { what = "let_error of a value"; auto s = final_of(ex::let_error(src, fs), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 6: { what = "let_stopped of a value"; auto s = final_of(ex::let_stopped(src, fs), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 7: { what = "write_env"; auto s = final_of(ex::write_env(src, ex::prop{ex::get_stop_token, ex::never_stop_token{}}), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 8: { what = "unless_stop_requested"; auto s = final_of(exec::unless_stop_requested(src), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 9: { what = "sequence"; auto s = final_of(exec::sequence(ex::just(), src), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 10: { what = "variant_sender"; auto s = final_of(exec::variant_sender<Src<Tag, A>, decltype(ex::just())>(src), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 11: if constexpr (A == P) { what = "bulk"; int n = 0; auto s = final_of(ex::bulk(src, ex::seq, 3, [&n](int i, Obj& o) noexcept { n += i * 10 + o.get() * 0 + (void const*)&o ? 1 : 0; }), &ch); category("the receiver", s, R); if (n != 3) vrt::fail("bulk ran %d times", n); same("the receiver", s); } break;
  case 12: if constexpr (A == P) { what = "continues_on"; auto s = final_of(ex::continues_on(src, ex::inline_scheduler{}), &ch); category("the receiver", s, R); if (s.copies) vrt::fail("continues_on copied an rvalue"); } break;
  }
  else switch (vrt::choose(10)) {
  case 0: { what = "upon_error"; final_of(ex::upon_error(src, fn), &ch); category("the function", f, arrives<A>); same("the function", f); invoked(f, R); break; }
  case 1: { what = "let_error"; final_of(ex::let_error(src, fs), &ch); category("the function", f, L); invoked(f, R); if (f.copies + f.moves != 1 || f.copies != (A == P || A == R ? 0 : 1)) vrt::fail("let_error made %d copies and %d moves", f.copies, f.moves); break; }
  case 2: { what = "then of an error"; auto s = final_of(ex::then(src, fn), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 3: { what = "let_value of an error"; auto s = final_of(ex::let_value(src, fs), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 4: { what = "upon_stopped of an error"; auto s = final_of(ex::upon_stopped(src, fn), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 5: { what = "write_env of an error"; auto s = final_of(ex::write_env(src, ex::prop{ex::get_stop_token, ex::never_stop_token{}}), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 6: { what = "bulk of an error"; auto s = final_of(ex::bulk(src, ex::seq, 3, [](int, auto&&...) noexcept {}), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 7: { what = "into_variant of an error"; auto s = final_of(ex::into_variant(src), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 8: { what = "sequence of an error"; auto s = final_of(exec::sequence(ex::just(), src), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  case 9: { what = "let_stopped of an error"; auto s = final_of(ex::let_stopped(src, fs), &ch); category("the receiver", s, arrives<A>); same("the receiver", s); break; }
  }
  vrt::cover(what);
}
// functions that take nothing, and results that algorithms keep for a while: one move (never a copy) in, an rvalue out
void rest() {
  Src<ex::set_value_t, P> src{value, &src_at}; Src<ex::set_error_t, P> err{value, &src_at}; Seen f; int ch; Fn fn{&f}; FnS fs{&f};
  auto kept = [&](auto&& s, const char* w) { what = w; auto r = final_of(std::move(s), &ch); category("the receiver", r, R); if (r.copies) vrt::fail("%s made %d copies of a result that was given to it", w, r.copies); };
  switch (vrt::choose(16)) {
  case 0: what = "upon_stopped"; final_of(ex::upon_stopped(ex::just_stopped(), fn), &ch); invoked(f, R); break;
  case 1: what = "let_stopped"; final_of(ex::let_stopped(ex::just_stopped(), fs), &ch); invoked(f, R); break;
  case 2: what = "then of nothing"; final_of(ex::then(ex::just(), fn), &ch); invoked(f, R); break;
  case 3: what = "let_value of nothing"; final_of(ex::let_value(ex::just(), fs), &ch); invoked(f, R); break;
  case 4: kept(ex::when_all(src, ex::just()), "when_all"); break;
  case 5: kept(ex::when_all(ex::just(), err), "when_all of an error"); break;
  case 6: kept(exec::when_any(src, ex::just_stopped()), "when_any"); break;
  case 7: kept(exec::when_any(err, ex::just_stopped()), "when_any of an error"); break;
  case 8: kept(exec::finally(src, ex::just()), "finally"); break;
  case 9: kept(exec::finally(err, ex::just()), "finally of an error"); break;
  case 10: kept(ex::continues_on(src, ex::inline_scheduler{}), "continues_on"); break;
  case 11: kept(ex::continues_on(err, ex::inline_scheduler{}), "continues_on of an error"); break;
  case 12: kept(ex::starts_on(ex::inline_scheduler{}, src), "starts_on"); break;
  case 13: { what = "just"; Obj o(value); kept(ex::just(std::move(o)), "just"); auto keep = ex::just(Obj(value)); auto r = final_of(keep, &ch); category("the receiver", r, R); if (r.copies != 1) vrt::fail("just connected as an lvalue made %d copies", r.copies); auto r2 = final_of(std::move(keep), &ch); category("the receiver", r2, R); if (r2.copies) vrt::fail("just connected as an rvalue made %d copies", r2.copies); break; }
  case 14: kept(ex::just_error(Obj(value)), "just_error"); break;
  case 15: { what = "split"; auto s = exec::split(src); auto r = final_of(s, &ch); category("the receiver", r, C); auto r2 = final_of(s, &ch); category("the receiver", r2, C); if (r.at != r2.at || r.copies) vrt::fail("split gave its consumers different objects"); break; }
  }
  vrt::cover(what);
}
VRT_SCENARIO_F(categories, vrt::F_SEQ, 10) {
  mon::Run run; value = vrt::range(1, 1000);
  switch (vrt::choose(11)) {
  case 0: one<ex::set_value_t, L>(); break; case 1: one<ex::set_value_t, C>(); break; case 2: one<ex::set_value_t, R>(); break; case 3: one<ex::set_value_t, K>(); break; case 4: one<ex::set_value_t, P>(); break;
  case 5: one<ex::set_error_t, L>(); break; case 6: one<ex::set_error_t, C>(); break; case 7: one<ex::set_error_t, R>(); break; case 8: one<ex::set_error_t, K>(); break; case 9: one<ex::set_error_t, P>(); break;
  default: rest();
  }
}
}  // namespace

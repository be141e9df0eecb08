// Sequential factories and adaptors.
#include "poly.hpp"
#include <exec/finally.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/sequence.hpp>
namespace poly {
namespace {
#define KIND(NAME, ARITY, FLAGS) const char* name() override { return NAME; } int arity() override { return ARITY; } int flags() override { return FLAGS; }
struct Just : Node { KIND("just", 0, 0)
  int cnt = 0; void setup() override { cnt = vrt::choose(3); }
  OpBase* make(AnyRcv* r) override { switch (cnt) { case 0: return mkop(this, r, ex::just()); case 1: return mkop(this, r, calmly([&] { return ex::just(Val(val)); })); default: return mkop(this, r, calmly([&] { return ex::just(Val(val), Val(val + 1)); })); } }
  void judge(Act& a) override { must(a, cnt == 0 ? rval({}) : cnt == 1 ? rval({val}) : rval({val, val + 1}), "just delivers other values than it was given"); if (a.tid_done != a.tid_start) wrong(a, "just completes elsewhere than where it was started"); }
};
struct JustError : Node { KIND("just_error", 0, 0)
  bool ep = false; void setup() override { ep = vrt::chance(50); }
  OpBase* make(AnyRcv* r) override { if (ep) return mkop(this, r, ex::just_error(std::make_exception_ptr(Boom{val}))); return mkop(this, r, calmly([&] { return ex::just_error(Err(val)); })); }
  void judge(Act& a) override { must(a, rerr(val, ep), "just_error delivers another error"); }
};
struct JustStopped : Node { KIND("just_stopped", 0, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::just_stopped()); }
  void judge(Act& a) override { must(a, rstop(), "just_stopped delivers something else"); }
};
struct JustFrom : Node { KIND("just_from", 0, 0)
  struct F : Tracked { Node* n; explicit F(Node* n_) : n(n_) {} template <class S> auto operator()(S sink) const { chk(); if constexpr (std::is_same_v<decltype(sink(Val(0), Val(0))), void>) { log_call(n, 0, 0, nullptr)->t_end = G.clock.inc(); n->last->calls.back().threw = 0; } calm k; return sink(Val(n->val), Val(n->val + 2)); } };
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::just_from(F(this))); }
  void judge(Act& a) override { must(a, rval({val, val + 2}), "just_from delivers other values"); if (a.calls.size() != 1) wrong(a, "just_from called its function a wrong number of times"); }
};
struct LeafN : Node { KIND("leaf", 0, F_LEAF)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, leaf_sender{leaf}); }
  void judge(Act&) override {}
};
struct ReadEnv : Node { KIND("read_env", 0, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::read_env(q1)); }
  void judge(Act& a) override { must(a, rval({a.env.v1}), "read_env delivers something else than the receiver's environment answers"); }
};
template <Ret RET> struct Then : Node { KIND(RET == R_VAL ? "then" : "then-void", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::then(PS(kid[0]), Fn<RET>(this, 0))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (k->res.ch != VALUE) { no_calls(a); must(a, k->res, "it changed a completion that is not a value"); return; }
    Call* c = one_call(a, k->res, "it did not call its function"); if (!c || call_threw(a, c)) return;
    must(a, RET == R_VAL ? rval({c->ret}) : rval({}), "it did not deliver its function's result");
  }
};
struct UponError : Node { KIND("upon_error", 1, F_EATS_ERROR)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::upon_error(PS(kid[0]), Fn<R_VAL>(this, 0))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (k->res.ch != ERROR) { no_calls(a); must(a, k->res, "it changed a completion that is not an error"); return; }
    Call* c = one_call(a, k->res, "it did not call its function"); if (!c || call_threw(a, c)) return;
    must(a, rval({c->ret}), "it did not deliver its function's result");
  }
};
struct UponStopped : Node { KIND("upon_stopped", 1, F_EATS_STOP)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::upon_stopped(PS(kid[0]), Fn<R_VAL>(this, 0))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (k->res.ch != STOPPED) { no_calls(a); must(a, k->res, "it changed a completion that is not stopped"); return; }
    Call* c = one_call(a, k->res, "it did not call its function"); if (!c || call_threw(a, c)) return;
    must(a, rval({c->ret}), "it did not deliver its function's result");
  }
};
template <int CH> struct Let : Node { KIND(CH == VALUE ? "let_value" : CH == ERROR ? "let_error" : "let_stopped", 2, CH == ERROR ? F_EATS_ERROR : CH == STOPPED ? F_EATS_STOP : 0)
  OpBase* make(AnyRcv* r) override {
    if constexpr (CH == VALUE) return mkop(this, r, ex::let_value(PS(kid[0]), Fn<R_KID1>(this, 0)));
    else if constexpr (CH == ERROR) return mkop(this, r, ex::let_error(PS(kid[0]), Fn<R_KID1>(this, 0)));
    else return mkop(this, r, ex::let_stopped(PS(kid[0]), Fn<R_KID1>(this, 0)));
  }
  void kid_done(int s) override { if (s == 1 && held) { if (held->get() != held_val) vrt::fail("let_value: the argument its function was called with changed before the sender it returned completed"); } }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    Act* k2 = poly::kid(a, 1);
    if (k->res.ch != CH) { no_calls(a); if (k2) wrong(a, "it started the second sender although the first completed on another channel"); must(a, k->res, "it changed a completion of another channel"); return; }
    Call* c = one_call(a, k->res, "it did not call its function");
    if (!k2) { if (!c || call_threw(a, c) || originates(a)) return; wrong(a, "it did not start the sender its function returned"); }
    if (!c || c->threw) wrong(a, "it started the second sender although its function threw");
    if (k2->t_start < c->t_end || c->t < k->t_done) wrong(a, "it did things in the wrong order");
    must(a, k2->res, "it changed the completion of the sender its function returned");
  }
};
struct IntoVariant : Node { KIND("into_variant", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::into_variant(PS(kid[0]))); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "the variant does not hold the child's result"); }
};
template <class F> Call* through_then(Node* n, Act& a, F&& other) {     // the common part of adaptors over child|then(Fn): returns the call if a value came through
  Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
  if (k->res.ch != VALUE) { for (auto& c : a.calls) if (c.slot == 0) wrong(a, "it called a value function although the child did not complete with value"); other(k->res); return nullptr; }
  Call* c = nullptr; for (auto& x : a.calls) if (x.slot == 0) { if (c) wrong(a, "it called a function twice"); c = &x; }
  if (!c) { if (originates(a)) return nullptr; wrong(a, "it did not call its function"); }
  if (c->threw) { other(rerr(c->threw, true)); return nullptr; }
  return c; (void)n;
}
struct StoppedAsOptional : Node { KIND("stopped_as_optional", 1, F_EATS_STOP)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)) | ex::stopped_as_optional()); }
  void judge(Act& a) override { Call* c = through_then(this, a, [&](Res const& x) { must(a, x.ch == STOPPED ? rval({Flat::T_NULLOPT}) : x, "a stopped child must give an empty optional, an error must pass"); }); if (c) must(a, rval({c->ret}), "the optional does not hold the value"); }
};
struct StoppedAsError : Node { KIND("stopped_as_error", 1, F_EATS_STOP)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, calmly([&] { return ex::stopped_as_error(PS(kid[0]), Err(val)); })); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res.ch == STOPPED ? rerr(val, false) : k->res, "stopped must become the given error and everything else must pass"); }
};
struct Materialize : Node { KIND("materialize", 1, F_EATS_ERROR | F_EATS_STOP)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::materialize(PS(kid[0]))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    int v[4]; int n = 0; Res& x = k->res;
    if (x.ch == VALUE) { v[n++] = Flat::T_VALUE; for (int i = 0; i < x.n; i++) v[n++] = x.v[i]; } else if (x.ch == ERROR) { v[n++] = Flat::T_ERROR; v[n++] = x.eptr; v[n++] = x.code; } else v[n++] = Flat::T_STOPPED;
    Res w; fold(w, v, n); must(a, w, "it does not deliver its child's completion as a value");
  }
};
struct Demat : Node { KIND("dematerialize", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::dematerialize(exec::materialize(PS(kid[0])))); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "materialize and dematerialize together changed a completion"); }
};
template <int N> struct Seq : Node { KIND(N == 2 ? "sequence" : "sequence3", N, 0)
  OpBase* make(AnyRcv* r) override { if constexpr (N == 2) return mkop(this, r, exec::sequence(ex::then(PS(kid[0]), Fn<R_VOID>(this, 0)), PS(kid[1]))); else return mkop(this, r, exec::sequence(ex::then(PS(kid[0]), Fn<R_VOID>(this, 0)), ex::then(PS(kid[1]), Fn<R_VOID>(this, 1)), PS(kid[2]))); }
  void judge(Act& a) override {
    for (int i = 0; i < N; i++) {
      Act* k = poly::kid(a, i);
      if (!k) { if (i && originates(a)) return; wrong(a, "it did not start the next sender"); }
      if (i && k->t_start < poly::kid(a, i - 1)->t_done) wrong(a, "it started a sender before the previous one had completed");
      Call* c = nullptr; for (auto& x : a.calls) if (x.slot == i) { if (c) wrong(a, "a function was called twice"); c = &x; }
      bool last = i == N - 1;
      if (last || k->res.ch != VALUE || (c && c->threw)) {
        if (!last && k->res.ch != VALUE && c) wrong(a, "a value function ran although there was no value");
        for (int j = i + 1; j < N; j++) if (poly::kid(a, j)) wrong(a, "it started another sender although an earlier one did not complete with value");
        if (c && c->threw) call_threw(a, c); else must(a, k->res, "it changed the completion of the sender that ended it");
        return;
      }
      if (!c) { if (originates(a)) return; wrong(a, "a function was not called"); }
    }
  }
};
struct Finally : Node { KIND("finally", 2, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::finally(PS(kid[0]), ex::then(PS(kid[1]), Fn<R_VOID>(this, 1)))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    Act* f = poly::kid(a, 1);
    if (!f) { if (originates(a)) return; wrong(a, "it did not run its clean-up"); }
    if (f->t_start < k->t_done) wrong(a, "its clean-up started before the child had completed");
    if (f->res.ch != VALUE) { if (!a.calls.empty()) wrong(a, "a function ran although there was no value"); must(a, f->res, "the clean-up's failure must be delivered"); return; }
    Call* c = a.calls.size() == 1 ? &a.calls[0] : nullptr; if (!c) { if (originates(a)) return; wrong(a, "the clean-up's function was not called exactly once"); }
    if (call_threw(a, c)) return;
    must(a, k->res, "it must deliver its child's completion");
  }
};
struct IntoTuple : Node { KIND("into_tuple", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::into_tuple(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)))); }
  void judge(Act& a) override { Call* c = through_then(this, a, [&](Res const& x) { must(a, x, "it changed a completion that is not a value"); }); if (c) must(a, rval({c->ret}), "the tuple does not hold the value"); }
};
template <class T> Node* mk() { return new T; }
template <class T> Kind kind(int w) { T t; return {t.name(), t.arity(), t.flags(), w, &mk<T>}; }
std::vector<Kind> const all{kind<Just>(3), kind<JustError>(1), kind<JustStopped>(1), kind<JustFrom>(1), kind<LeafN>(10), kind<ReadEnv>(1), kind<Then<R_VAL>>(8), kind<Then<R_VOID>>(3), kind<UponError>(5), kind<UponStopped>(4),
    kind<Let<VALUE>>(8), kind<Let<ERROR>>(6), kind<Let<STOPPED>>(5), kind<IntoVariant>(3), kind<StoppedAsOptional>(3), kind<StoppedAsError>(3), kind<Materialize>(2), kind<Demat>(2), kind<Seq<2>>(5), kind<Seq<3>>(2), kind<Finally>(6), kind<IntoTuple>(2)};
}  // namespace
std::vector<Kind> const& kinds_a() { return all; }
}  // namespace poly

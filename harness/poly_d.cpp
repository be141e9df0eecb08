// Compositions in which the adaptors see each other's types (schedulers and environments known statically).
#include "poly.hpp"
#include <exec/sequence.hpp>
#include <exec/finally.hpp>
#include <exec/env.hpp>
namespace poly {
namespace {
#define KIND(NAME, ARITY, FLAGS) const char* name() override { return NAME; } int arity() override { return ARITY; } int flags() override { return FLAGS; }
void same_env(Act& a, Act& k) { if (k.env.v1 != a.env.v1 || !(k.env.tok == a.env.tok)) wrong(a, "its child sees another environment"); }
void starts_at(Act& a, Act& k, Ctx* c) { if (c->kind != C_INLINE && k.tid_start != c->tid.get()) wrong(a, "it started a sender elsewhere than on the given scheduler"); }
// a chain in which the second sender is started by the first one's completion, on a scheduler known statically
template <int W> struct Chain : Node { KIND(W == 0 ? "let_value|continues_on" : W == 1 ? "sequence|continues_on" : W == 2 ? "let_stopped|continues_on" : "finally|continues_on", 2, F_CTX | (W == 2 ? F_EATS_STOP : 0))
  static constexpr int CH = W == 2 ? STOPPED : VALUE;
  void setup() override { for (int i = 0; c->kind == C_LOOP && i < 3; i++) c = &t->ctx[i]; }
  OpBase* make(AnyRcv* r) override {
    if constexpr (W == 0) return mkop(this, r, ex::let_value(ex::continues_on(PS(kid[0]), PSchI{c}), Fn<R_KID1>(this, 0)));
    else if constexpr (W == 1) return mkop(this, r, exec::sequence(ex::continues_on(ex::then(PS(kid[0]), Fn<R_VOID>(this, 0)), PSchI{c}), PS(kid[1])));
    else if constexpr (W == 2) return mkop(this, r, ex::let_stopped(ex::continues_on(PS(kid[0]), PSchI{c}), Fn<R_KID1>(this, 0)));
    else return mkop(this, r, exec::finally(ex::continues_on(PS(kid[0]), PSchI{c}), ex::then(PS(kid[1]), Fn<R_VOID>(this, 1))));
  }
  void env_rule(Act& a, Act& k) override {
    same_env(a, k);
    if (k.node->slot == 0) { if (!(k.env.sch == a.env.sch)) wrong(a, "its first child sees another scheduler than its receiver supplies"); return; }
    if (W < 2 && c->kind != C_INLINE && k.env.sch.c != c) wrong(a, "the sender started on a known scheduler does not see that scheduler in its environment");
  }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    Act* k2 = poly::kid(a, 1); if (k2 && !(W == 3 && G.thrown.get())) starts_at(a, *k2, c);
    Call* c1 = nullptr; for (auto& x : a.calls) if (x.slot == 0) { if (c1) wrong(a, "a function was called twice"); c1 = &x; }
    Call* c2 = nullptr; for (auto& x : a.calls) if (x.slot == 1) { if (c2) wrong(a, "a function was called twice"); c2 = &x; }
    if (W == 3) {
      if (!k2) { if (originates(a)) return; wrong(a, "it did not run its clean-up"); }
      if (k2->res.ch != VALUE) { if (G.thrown.get()) a.node->t->masked = true; must(a, k2->res, "the clean-up's failure must be delivered"); return; }
      if (!c2) { if (originates(a)) return; wrong(a, "the clean-up's function was not called"); }
      if (c2->threw) a.node->t->masked = true;
      if (call_threw(a, c2)) return;
      if (originates(a)) return;
      must(a, k->res, "it must deliver its child's completion"); return;
    }
    if (k->res.ch != CH) { if (c1) wrong(a, "it called its function although the child completed on another channel"); if (k2) wrong(a, "it started the second sender although the first completed on another channel"); must(a, k->res, "it changed a completion of another channel"); return; }
    if (!c1) { if (originates(a)) { if (k2) wrong(a, "it started the second sender without a function call"); return; } wrong(a, "it did not call its function"); }
    if (W != 1 && c->kind != C_INLINE && c1->tid != c->tid.get()) wrong(a, "its function does not run on the given scheduler");
    if (call_threw(a, c1)) { if (k2) wrong(a, "it started the second sender although its function threw"); return; }
    if (!k2) { if (originates(a)) return; wrong(a, "it did not start the second sender"); }
    must(a, k2->res, "it changed the second sender's completion");
  }
};
// functions run where the transfer before them says
template <int W> struct FnOn : Node { KIND(W == 0 ? "continues_on|then" : W == 1 ? "continues_on|upon_error" : "continues_on|upon_stopped", 1, F_CTX | (W == 1 ? F_EATS_ERROR : W == 2 ? F_EATS_STOP : 0))
  void setup() override { for (int i = 0; c->kind == C_LOOP && i < 3; i++) c = &t->ctx[i]; }
  OpBase* make(AnyRcv* r) override {
    if constexpr (W == 0) return mkop(this, r, ex::continues_on(PS(kid[0]), PSchI{c}) | ex::then(Fn<R_VAL>(this, 0)));
    else if constexpr (W == 1) return mkop(this, r, ex::continues_on(PS(kid[0]), PSchI{c}) | ex::upon_error(Fn<R_VAL>(this, 0)));
    else return mkop(this, r, ex::continues_on(PS(kid[0]), PSchI{c}) | ex::upon_stopped(Fn<R_VAL>(this, 0)));
  }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    constexpr int CH = W == 0 ? VALUE : W == 1 ? ERROR : STOPPED;
    if (W == 1 && a.calls.size() == 1 && a.calls[0].n == 2 && a.calls[0].v[0] == 1 && a.calls[0].v[1] == a.node->t->boom && G.thrown.get()) { a.node->t->masked = true; must(a, rval({a.calls[0].ret}), "it did not deliver its function's result"); return; }
    if (k->res.ch != CH) { no_calls(a); must(a, k->res, "it changed a completion of another channel"); }
    else { Call* c1 = one_call(a, k->res, "it did not call its function"); if (!c1) return;
      if (c->kind != C_INLINE && c1->tid != c->tid.get()) wrong(a, "its function does not run on the given scheduler");
      if (!call_threw(a, c1)) must(a, rval({c1->ret}), "it did not deliver its function's result"); }
    if (!originates(a)) on_ctx(a, c, "it does not complete on the given scheduler");
  }
};
struct StartsOnThen : Node { KIND("starts_on|then", 0, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, calmly([&] { return ex::starts_on(PSch{c}, ex::just(Val(val)) | ex::then(Fn<R_VAL>(this, 0))); })); }
  void judge(Act& a) override {
    if (a.calls.empty()) { if (sched_failed(a, c) || originates(a)) return; wrong(a, "its function was not called"); }
    Call* k = one_call(a, rval({val}), ""); starts_tid(a, k); if (call_threw(a, k)) return; must(a, rval({k->ret}), "it did not deliver its function's result"); on_ctx(a, c, "it does not complete where it was started");
  }
  void starts_tid(Act& a, Call* k) { if (c->kind != C_INLINE && k->tid != c->tid.get()) wrong(a, "its function does not run on the given scheduler"); }
};
struct OnThen : Node { KIND("on|then", 1, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::on(PSch{c}, ex::then(PS(kid[0]), Fn<R_VAL>(this, 0))) | ex::then(Fn<R_VAL>(this, 1))); }
  void env_rule(Act& a, Act& k) override { same_env(a, k); if (!(k.env.sch == PSch{c})) wrong(a, "its child does not see the scheduler it runs on"); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); Ctx* home = a.env.sch.c;
    if (k) starts_at(a, *k, c);
    Call *c1 = nullptr, *c2 = nullptr; for (auto& x : a.calls) { Call*& p = x.slot ? c2 : c1; if (p) wrong(a, "a function was called twice"); p = &x; }
    if (c2 && home->kind != C_INLINE && c2->tid != home->tid.get()) wrong(a, "what follows on() does not run on the scheduler it was started on");
    if (c2 && !c1) wrong(a, "it called the second function without the first");
    if (c2 && c2->threw) { call_threw(a, c2); return; }
    if (sched_failed(a, c) || sched_failed(a, home) || originates(a)) return;
    if (!k) wrong(a, "it did not start its child");
    if (k->res.ch != VALUE) { if (c1) wrong(a, "a value function ran although there was no value"); must(a, k->res, "it changed its child's completion"); }
    else if (!c1) wrong(a, "its function was not called");
    else if (c1->threw) { if (c2) wrong(a, "a later stage's function ran although an earlier one threw"); must(a, rerr(c1->threw, true), "its function threw and it did not complete with that exception"); }
    else { if (!c2) wrong(a, "its second function was not called"); if (c2->n != 1 || c2->v[0] != c1->ret) wrong(a, "the second function got other values than the first one returned"); must(a, rval({c2->ret}), "it did not deliver its function's result"); }
    on_ctx(a, home, "it does not return to the scheduler it was started on");
  }
};
struct AllOn : Node { KIND("when_all|starts_on", 2, F_CTX | F_CONC)
  Ctx* d = nullptr; void setup() override { d = &t->ctx[vrt::choose(3)]; }
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::when_all(ex::starts_on(PSch{c}, ex::then(PS(kid[0]), Fn<R_VAL>(this, 0))), ex::on(PSch{d}, ex::then(PS(kid[1]), Fn<R_VAL>(this, 1))))); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1) wrong(a, "its child sees another environment"); if (!(k.env.sch == PSch{k.node->slot ? d : c})) wrong(a, "its child does not see the scheduler it runs on"); if (!k.env.tok.stop_possible()) wrong(a, "its child cannot see stop requests"); }
  void judge(Act& a) override {
    bool bad = false;
    for (int i = 0; i < 2; i++) { Act* k = poly::kid(a, i); if (!k) { bad = true; continue; } starts_at(a, *k, i ? d : c); }
    if (a.res.ch == VALUE) { if (bad) wrong(a, "it completes with value although a child never ran"); if (a.calls.size() != 2) wrong(a, "it completes with value although a function was not called"); Call *x = &a.calls[0], *y = &a.calls[1]; if (x->slot) std::swap(x, y); Res w; int v[2] = {x->ret, y->ret}; fold(w, v, 2); must(a, w, "it does not deliver its children's values in order"); return; }
    for (int i = 0; i < 2; i++) { Act* k = poly::kid(a, i); if (k && same(k->res, a.res)) return; }
    for (auto& c1 : a.calls) if (c1.threw && same(a.res, rerr(c1.threw, true))) return;
    if (a.res.ch == STOPPED && a.stop_at_done) return;
    if (sched_failed(a, c) || sched_failed(a, d) || sched_failed(a, a.env.sch.c) || originates(a)) return;
    wrong(a, "it delivers something no child produced");
  }
};
// environments: the nearest provider wins
template <int W> struct Envs : Node { KIND(W == 0 ? "write_env|write_env" : W == 1 ? "write_env|env" : W == 2 ? "let|write_env" : "write_env|sequence", 1, 0)
  OpBase* make(AnyRcv* r) override {
    if constexpr (W == 0) return mkop(this, r, ex::write_env(ex::write_env(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)), ex::prop{q1, val + 1}), ex::prop{q1, val}));
    else if constexpr (W == 1) return mkop(this, r, ex::write_env(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)), ex::env{ex::prop{q1, val + 1}, ex::prop{q1, val}}));
    else if constexpr (W == 2) return mkop(this, r, calmly([&] { return ex::write_env(ex::let_value(ex::write_env(ex::read_env(q1), ex::prop{q1, val + 1}), [n = this](int x) { if (x != n->val + 1) vrt::fail("node %d (%s): read_env does not see the value of the nearest write_env", n->id, n->name()); return ex::write_env(ex::then(PS(n->kid[0]), Fn<R_VAL>(n, 0)), exec::make_env(ex::env{}, exec::with(q1, x))); }), ex::prop{q1, val}); }));
    else return mkop(this, r, ex::write_env(exec::sequence(ex::just(), ex::then(PS(kid[0]), Fn<R_VAL>(this, 0))), ex::env{ex::prop{q1, val + 1}, ex::prop{q2, val}}));
  }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != val + 1) wrong(a, "its child does not see the value of the nearest provider"); if (!(k.env.tok == a.env.tok) || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another value for a query that was not written"); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) { if (originates(a)) return; wrong(a, "it did not start its child"); }
    if (k->res.ch != VALUE) { no_calls(a); must(a, k->res, "it changed a completion that is not a value"); return; }
    Call* c1 = one_call(a, k->res, "it did not call its function"); if (!c1 || call_threw(a, c1)) return;
    must(a, rval({c1->ret}), "it did not deliver its function's result");
  }
};
template <class T> Node* mk() { return new T; }
template <class T> Kind kind(int w) { T t; return {t.name(), t.arity(), t.flags(), w, &mk<T>}; }
std::vector<Kind> const all{kind<Chain<0>>(3), kind<Chain<1>>(3), kind<Chain<2>>(2), kind<Chain<3>>(3), kind<FnOn<0>>(2), kind<FnOn<1>>(2), kind<FnOn<2>>(2), kind<StartsOnThen>(1), kind<OnThen>(3), kind<AllOn>(3), kind<Envs<0>>(1), kind<Envs<1>>(1), kind<Envs<2>>(1), kind<Envs<3>>(1)};
}  // namespace
std::vector<Kind> const& kinds_d() { return all; }
}  // namespace poly

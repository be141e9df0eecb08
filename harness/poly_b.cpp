// Contexts, environments, stop handling.
#include "poly.hpp"
#include <exec/reschedule.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/repeat_n.hpp>
#include <exec/env.hpp>
namespace poly {
namespace {
#define KIND(NAME, ARITY, FLAGS) const char* name() override { return NAME; } int arity() override { return ARITY; } int flags() override { return FLAGS; }
struct Schedule : Node { KIND("schedule", 0, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::schedule(PSch{c})); }
  void judge(Act& a) override { if (sched_failed(a, c)) return; must(a, rval({}), "schedule delivers something else"); on_ctx(a, c, "schedule does not complete on its context"); }
};
struct StartsOn : Node { KIND("starts_on", 1, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::starts_on(PSch{c}, PS(kid[0]))); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.tok == a.env.tok)) wrong(a, "its child sees another environment"); if (!(k.env.sch == PSch{c})) wrong(a, "its child does not see the scheduler it was started on"); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) { if (sched_failed(a, c) || originates(a)) return; wrong(a, "it did not start its child"); }
    if (c->kind != C_INLINE && k->tid_start != c->tid.get()) wrong(a, "it started its child elsewhere than on the given scheduler");
    must(a, k->res, "it changed its child's completion");
  }
};
struct ContinuesOn : Node { KIND("continues_on", 1, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::continues_on(PS(kid[0]), PSch{c})); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (sched_failed(a, c)) return;
    if (originates(a)) return;
    must(a, k->res, "it changed its child's completion"); on_ctx(a, c, "it does not complete on the given scheduler");
  }
};
struct On : Node { KIND("on", 1, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::on(PSch{c}, PS(kid[0]))); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.tok == a.env.tok)) wrong(a, "its child sees another environment"); if (!(k.env.sch == PSch{c})) wrong(a, "its child does not see the scheduler it was started on"); }
  void judge(Act& a) override {
    Ctx* home = a.env.sch.c; Act* k = poly::kid(a, 0);
    if (sched_failed(a, home)) return;
    if (!k) { if (originates(a)) return; if (sched_failed(a, c)) return on_ctx(a, home, "it does not return to the scheduler it was started on"); wrong(a, "it did not start its child"); }
    if (c->kind != C_INLINE && k->tid_start != c->tid.get()) wrong(a, "it started its child elsewhere than on the given scheduler");
    if (originates(a)) return;
    must(a, k->res, "it changed its child's completion"); on_ctx(a, home, "it does not return to the scheduler it was started on");
  }
};
// continues_on(child, c) followed by on(other context, closure): the closure runs there, and it comes back
struct OnClosure : Node { KIND("on-closure", 1, F_CTX)
  Ctx* d = nullptr; void setup() override { d = &t->ctx[vrt::choose(3)]; }
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::on(ex::continues_on(PS(kid[0]), PSch{c}), PSch{d}, ex::then(Fn<R_VAL>(this, 0)))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (a.calls.size() > 1) wrong(a, "its function was called more than once");
    Call* cl = a.calls.empty() ? nullptr : &a.calls[0];
    if (cl) { if (k->res.ch != VALUE) wrong(a, "its function was called although the child did not complete with value"); one_call(a, k->res, ""); if (d->kind != C_INLINE && cl->tid != d->tid.get()) wrong(a, "the closure does not run on the given scheduler"); }
    if (sched_failed(a, c) || sched_failed(a, d) || originates(a)) return;
    if (k->res.ch == VALUE && !cl) wrong(a, "its function was not called");
    if (cl && call_threw(a, cl)) {} else must(a, cl ? rval({cl->ret}) : k->res, "it does not deliver the closure's result");
    on_ctx(a, c, "it does not return to where its child completed");
  }
};
struct Reschedule : Node { KIND("reschedule", 1, F_CTX)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::reschedule(PS(kid[0]))); }
  void judge(Act& a) override {
    Ctx* home = a.env.sch.c; Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (sched_failed(a, home) || originates(a)) return;
    must(a, k->res, "it changed its child's completion"); on_ctx(a, home, "it does not complete on the current scheduler");
  }
};
struct Affine : Node { KIND("affine", 1, F_CTX)
  void setup() override { for (int i = 0; c->kind == C_LOOP && i < 3; i++) c = &t->ctx[i]; }
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::write_env(ex::affine(PS(kid[0])), ex::prop{ex::get_start_scheduler, PSchI{c}})); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.tok == a.env.tok)) wrong(a, "its child sees another environment"); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (originates(a)) return;
    must(a, k->res, "it changed its child's completion"); on_ctx(a, c, "it does not return to the scheduler it was started on");
  }
};
struct WriteEnv : Node { KIND("write_env", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::write_env(PS(kid[0]), ex::prop{q1, val})); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != val) wrong(a, "its child does not see the value written"); if (!(k.env.tok == a.env.tok) || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another value for a query that was not written"); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "it changed its child's completion"); }
};
struct WriteToken : Node { KIND("write-token", 1, F_UNSTOP)
  ex::inplace_stop_source own; bool req = false; void setup() override { req = vrt::chance(30); if (req) own.request_stop(); }
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::write_env(PS(kid[0]), ex::prop{ex::get_stop_token, own.get_token()})); }
  void env_rule(Act& a, Act& k) override { if (!(k.env.tok == own.get_token())) wrong(a, "its child does not see the token written"); if (k.env.v1 != a.env.v1 || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another value for a query that was not written"); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "it changed its child's completion"); }
};
struct Unstoppable : Node { KIND("unstoppable", 1, F_UNSTOP)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::unstoppable(PS(kid[0]))); }
  void env_rule(Act& a, Act& k) override { if (k.env.tok.stop_possible()) wrong(a, "its child can see stop requests"); if (k.env.v1 != a.env.v1 || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another environment"); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "it changed its child's completion"); }
};
struct UnlessStop : Node { KIND("unless_stop_requested", 1, 0)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::unless_stop_requested(PS(kid[0]))); }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) { if (a.res.ch != STOPPED || !(a.env.tok.stop_requested() || a.stop_at_done)) wrong(a, "it did not start its child although stop was not requested"); return; }
    must(a, k->res, "it changed its child's completion");
  }
};
struct ReadDefault : Node { KIND("read_with_default", 0, 0)
  bool known = false; void setup() override { known = vrt::chance(50); }
  struct q3_t { template <class E, class Q = q3_t> requires requires(E const& e, Q q) { e.query(q); } int operator()(E const& e) const noexcept { return e.query(*this); } };
  OpBase* make(AnyRcv* r) override { if (known) return mkop(this, r, calmly([&] { return exec::read_with_default(q1, Val(val)); })); return mkop(this, r, calmly([&] { return exec::read_with_default(q3_t{}, Val(val)); })); }
  void judge(Act& a) override { must(a, rval({known ? a.env.v1 : val}), "read_with_default delivers something else"); }
};
struct Variant : Node { KIND("variant_sender", 1, 0)
  bool second = false; void setup() override { second = vrt::chance(50); }
  OpBase* make(AnyRcv* r) override {
    using B = decltype(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)));
    using V = exec::variant_sender<PS, B>;
    if (!second) { V v{PS(kid[0])}; return mkop(this, r, std::move(v)); }
    V v{ex::then(PS(kid[0]), Fn<R_VAL>(this, 0))}; if (val % 20) { V w{PS(kid[0])}; w.swap(v); return mkop(this, r, std::move(w)); }
    return mkop(this, r, std::move(v));
  }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (!second || k->res.ch != VALUE) { no_calls(a); must(a, k->res, "it changed its child's completion"); return; }
    Call* c = one_call(a, k->res, "it did not call its function"); if (!c || call_threw(a, c)) return;
    must(a, rval({c->ret}), "it did not deliver its function's result");
  }
};
struct RepeatN : Node { KIND("repeat_n", 1, 0)
  int times = 0; void setup() override { times = vrt::choose(4); }
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::repeat_n(ex::then(PS(kid[0]), Fn<R_VOID>(this, 0)), (size_t)times)); }
  void judge(Act& a) override {
    std::vector<Act*> v; for (Act* k : a.kids) if (k->t_start >= 0) v.push_back(k);
    size_t calls = 0;
    for (size_t i = 0; i < v.size(); i++) {
      if (i && v[i]->t_start < v[i - 1]->t_done) wrong(a, "an iteration began before the previous one had completed");
      if (v[i]->res.ch == VALUE) {
        if (calls >= a.calls.size()) { if (originates(a)) return; wrong(a, "a function was not called"); }
        Call& c = a.calls[calls++]; if (c.threw) { if (i + 1 != v.size()) wrong(a, "it went on after an exception"); call_threw(a, &c); return; }
      } else { if (i + 1 != v.size()) wrong(a, "it went on although an iteration did not complete with value"); if (a.calls.size() != calls) wrong(a, "a function was called once too often"); must(a, v[i]->res, "it changed the completion that ended it"); return; }
    }
    if (originates(a)) return;
    if ((int)v.size() != times) { if (a.res.ch == STOPPED && a.stop_at_done) return; wrong(a, "it ran another number of iterations"); }
    must(a, rval({}), "it must complete with no values");
  }
};
template <class T> Node* mk() { return new T; }
template <class T> Kind kind(int w) { T t; return {t.name(), t.arity(), t.flags(), w, &mk<T>}; }
std::vector<Kind> const all{kind<Schedule>(3), kind<StartsOn>(6), kind<ContinuesOn>(7), kind<On>(5), kind<OnClosure>(4), kind<Reschedule>(2), kind<Affine>(3), kind<WriteEnv>(3), kind<WriteToken>(1), kind<Unstoppable>(2), kind<UnlessStop>(2), kind<ReadDefault>(1), kind<Variant>(2), kind<RepeatN>(3)};
}  // namespace
std::vector<Kind> const& kinds_b() { return all; }
}  // namespace poly

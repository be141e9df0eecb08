// Joins, scopes, erasure.
#include "poly.hpp"
#include <exec/when_any.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/fork_join.hpp>
#include <exec/async_scope.hpp>
namespace poly {
namespace {
#define KIND(NAME, ARITY, FLAGS) const char* name() override { return NAME; } int arity() override { return ARITY; } int flags() override { return FLAGS; }
struct Join : Node {
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another environment"); if (!k.env.tok.stop_possible()) wrong(a, "its child cannot see stop requests"); if (k.env.tok == a.env.tok) wrong(a, "its child does not see the join's own stop token"); }
};
// what a when_all delivers, given the completions of its children after their functions
void when_all_rule(Act& a, int n, Res* rs, bool* started) {
  int ns = 0, ne = 0, nst = 0; for (int i = 0; i < n; i++) if (started[i]) { ns++; if (rs[i].ch == ERROR) ne++; if (rs[i].ch == STOPPED) nst++; }
  if (!ns) { if (a.res.ch == STOPPED && a.stop_at_done) return; wrong(a, "it started no child"); }
  if (ns != n) wrong(a, "it did not start all its children");
  if (originates(a)) return;
  if (ne) { for (int i = 0; i < n; i++) if (rs[i].ch == ERROR && same(rs[i], a.res)) return; wrong(a, "a child failed and it does not deliver a child's error"); }
  if (nst) { if (a.res.ch != STOPPED) wrong(a, "a child was stopped and it does not complete with stopped"); return; }
  if (a.res.ch == STOPPED && a.stop_at_done) return;   // a stop request before the last child completed wins
  Flat f; for (int i = 0; i < n; i++) for (int j = 0; j < rs[i].n; j++) f.put(rs[i].v[j]); Res w; fold(w, f.v, f.n);
  must(a, w, "it does not deliver its children's values in order");
}
template <int N> struct WhenAll : Join { KIND(N == 2 ? "when_all" : "when_all-3", N, F_CONC)
  OpBase* make(AnyRcv* r) override {
    if constexpr (N == 2) return mkop(this, r, ex::when_all(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)), ex::then(PS(kid[1]), Fn<R_VAL>(this, 1))));
    else return mkop(this, r, ex::when_all(ex::then(PS(kid[0]), Fn<R_VAL>(this, 0)), ex::then(PS(kid[1]), Fn<R_VAL>(this, 1)), ex::then(PS(kid[2]), Fn<R_VOID>(this, 2))));
  }
  void judge(Act& a) override {
    Res rs[N]; bool st[N];
    for (int i = 0; i < N; i++) {
      Act* k = poly::kid(a, i); st[i] = k; if (!k) continue; rs[i] = k->res;
      Call* c = nullptr; for (auto& x : a.calls) if (x.slot == i) { if (c) wrong(a, "a function was called twice"); c = &x; }
      if (k->res.ch != VALUE) { if (c) wrong(a, "a value function was called although there was no value"); continue; }
      if (!c) { if (originates(a)) return; if (a.node->t->boom && G.thrown.get()) { rs[i] = rerr(a.node->t->boom, true); continue; } wrong(a, "a function was not called"); }
      rs[i] = c->threw ? rerr(c->threw, true) : i == 2 ? rval({}) : rval({c->ret});
    }
    if (a.node->t->moves && G.thrown.get()) return;     // a move inside the children's adaptors may have failed instead
    when_all_rule(a, N, rs, st);
  }
};
template <bool TR> struct WhenAllV : Join { KIND(TR ? "transfer_when_all_with_variant" : "when_all_with_variant", 2, F_CONC | (TR ? F_CTX : 0))
  OpBase* make(AnyRcv* r) override { if constexpr (TR) return mkop(this, r, ex::transfer_when_all_with_variant(PSch{c}, PS(kid[0]), PS(kid[1]))); else return mkop(this, r, ex::when_all_with_variant(PS(kid[0]), PS(kid[1]))); }
  void judge(Act& a) override {
    Res rs[2]; bool st[2]; for (int i = 0; i < 2; i++) { Act* k = poly::kid(a, i); st[i] = k; if (k) rs[i] = k->res; }
    if (TR && sched_failed(a, c)) return;
    if (a.node->t->moves && G.thrown.get()) return;
    when_all_rule(a, 2, rs, st);
    if (TR && !originates(a)) on_ctx(a, c, "it does not complete on the given scheduler");
  }
};
struct WhenAny : Join { KIND("when_any", 2, F_CONC)
  OpBase* make(AnyRcv* r) override { return mkop(this, r, exec::when_any(PS(kid[0]), PS(kid[1]))); }
  void judge(Act& a) override {
    Act* k[2] = {poly::kid(a, 0), poly::kid(a, 1)};
    if (!k[0] && !k[1]) { if (a.res.ch == STOPPED && a.stop_at_done) return; wrong(a, "it started no child"); }
    if (!k[0] || !k[1]) { if (!k[1] || !a.stop_at_done) wrong(a, "it did not start all its children"); }
    for (Act* x : k) if (x && same(x->res, a.res)) return;
    if (a.res.ch == STOPPED && a.stop_at_done) return;
    if (originates(a)) return;
    wrong(a, "it does not deliver a child's completion");
  }
};
struct StopWhen : Node { KIND("stop_when", 1, 0)
  std::unique_ptr<ex::inplace_stop_source> own{std::make_unique<ex::inplace_stop_source>()};
  OpBase* make(AnyRcv* r) override { return mkop(this, r, ex::__stop_when(PS(kid[0]), own->get_token())); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another environment"); if (!k.env.tok.stop_possible()) wrong(a, "its child cannot see stop requests"); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "it changed its child's completion"); }
};
struct Bulk : Node { KIND("bulk", 1, 0)
  int shape = 0; void setup() override { shape = vrt::choose(4); }
  struct F : Tracked { Node* n; explicit F(Node* n_) : n(n_) {} template <class... A> void operator()(int i, A&... a) const {
    chk(); Flat f; f.put(i); (f.add(std::as_const(a)), ...); f.fold(); Call* c = log_call(n, i, f.n, f.v);
    try { throw_point(); } catch (...) { c->threw = G.thrown.get(); n->t->threw_in_call = true; c->t_end = G.clock.inc(); throw; } c->t_end = G.clock.inc(); } };
  OpBase* make(AnyRcv* r) override { switch (val / 10 % 3) { case 0: return mkop(this, r, ex::bulk(PS(kid[0]), ex::par, shape, F(this))); case 1: return mkop(this, r, ex::bulk_unchunked(PS(kid[0]), ex::par, shape, F(this))); default: return mkop(this, r, ex::bulk(PS(kid[0]), ex::seq, shape, F(this))); } }
  void judge(Act& a) override {
    Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child");
    if (k->res.ch != VALUE) { no_calls(a); must(a, k->res, "it changed a completion that is not a value"); return; }
    int seen = 0; Call* th = nullptr;
    for (auto& c : a.calls) {
      if (c.slot < 0 || c.slot >= shape || (seen >> c.slot & 1)) wrong(a, "its function was called with a wrong or repeated index"); seen |= 1 << c.slot;
      Flat f; f.put(c.slot); for (int i = 0; i < k->res.n; i++) f.put(k->res.v[i]); f.fold(); if (c.n != f.n || c.v[0] != f.v[0] || (f.n > 1 && c.v[1] != f.v[1])) wrong(a, "its function was called with other values than the child delivered");
      if (c.threw) th = &c;
    }
    if (th) { call_threw(a, th); return; }
    if (seen != (1 << shape) - 1) { if (originates(a)) return; wrong(a, "its function was not called for every index"); }
    must(a, k->res, "it must deliver the child's values");
  }
};
using AnyS = exec::any_sender<exec::any_receiver<ex::completion_signatures<ex::set_value_t(), ex::set_value_t(Val&&), ex::set_value_t(Val&&, Val&&), ex::set_error_t(std::exception_ptr), ex::set_error_t(Err), ex::set_stopped_t()>, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, int(q1_t) noexcept, PSch(ex::get_start_scheduler_t) noexcept>>>;
struct Any : Node { KIND("any_sender", 1, 0)
  OpBase* make(AnyRcv* r) override { calm k; AnyS s{PS(kid[0])}; if (val % 20) { AnyS o{std::move(s)}; k.~calm(); new (&k) calm; return mk2(r, std::move(o), k); } return mk2(r, std::move(s), k); }
  OpBase* mk2(AnyRcv* r, AnyS s, calm& k) { int a = std::exchange(k.a, 0); G.armed.set(a); return mkop(this, r, std::move(s)); }
  void env_rule(Act& a, Act& k) override { if (k.env.v1 != a.env.v1 || !(k.env.sch == a.env.sch)) wrong(a, "its child sees another environment"); if (a.env.tok.stop_possible() && !k.env.tok.stop_possible()) wrong(a, "its child cannot see stop requests"); }
  void judge(Act& a) override { Act* k = poly::kid(a, 0); if (!k) wrong(a, "it did not start its child"); must(a, k->res, "it changed its child's completion"); }
};
template <class T> Node* mk() { return new T; }
template <class T> Kind kind(int w) { T t; return {t.name(), t.arity(), t.flags(), w, &mk<T>}; }
std::vector<Kind> const all{kind<WhenAll<2>>(6), kind<WhenAll<3>>(3), kind<WhenAllV<false>>(4), kind<WhenAllV<true>>(2), kind<WhenAny>(4), kind<StopWhen>(2), kind<Bulk>(3), kind<Any>(3)};
}  // namespace
std::vector<Kind> const& kinds_c() { return all; }
}  // namespace poly

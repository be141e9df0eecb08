// C23: repeat_n, repeat_until, repeat, trampoline_scheduler.
#include "mon.hpp"
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/trampoline_scheduler.hpp>
using namespace mon;

namespace {
// the script: what the leaf does in each iteration
struct Script {
  int how[24], where[24], n = 0, stop_in = -1;
  Scene* sc = nullptr; Leaf* l = nullptr; vrt::cell<int> fns;
};
Script* S;
void on_start(Leaf* l, ex::inplace_stop_token) {
  int it = l->starts.get() - 1;
  if (it >= S->n) vrt::fail("iteration %d was started although only %d were due", it + 1, S->n);
  if (l->live_ops.get() != 1) vrt::fail("iteration %d begins while %d operations of the child are alive", it + 1, l->live_ops.get());
  if (l->completes.get() != it) vrt::fail("iteration %d begins before the previous one has completed", it + 1);
  if (it && S->how[it - 1] != VALUE) vrt::fail("iteration %d begins although the previous one completed with %s", it + 1, chname(S->how[it - 1]));
  l->how = S->how[it]; l->where = S->where[it];
  if (it == S->stop_in) S->sc->request_stop();
}
struct Setup {
  Scene sc{1, 100}; Script s; int boom = 0;
  explicit Setup(int n) {
    S = &s; s.n = n; s.sc = &sc; s.l = &sc.L(0);
    for (int i = 0; i < n; i++) { s.how[i] = VALUE; s.where[i] = vrt::chance(50) ? INLINE : EXTERN; }
    if (n && vrt::chance(40)) s.how[vrt::choose(n)] = vrt::chance(50) ? ERROR : STOPPED;
    if (sc.stop_mode == Scene::IN_START) { sc.stop_mode = Scene::AFTER; if (n) s.stop_in = vrt::choose(n), sc.stop_mode = Scene::NO_STOP; }
    if (n && (sc.stop_planned() || s.stop_in >= 0) && vrt::chance(40)) { int i = s.stop_in >= 0 ? s.stop_in : vrt::choose(n); s.where[i] = NEVER; if (sc.L(0).onstop == IGNORE) sc.L(0).onstop = INCB; }
    sc.L(0).where = EXTERN; sc.L(0).on_start = on_start;
    if (vrt::chance(20)) boom = 77;
  }
  void judge(bool threw) {
    Leaf& l = sc.L(0); int k = l.starts.get();
    if (l.live_ops.get()) vrt::fail("a child operation is still alive");
    if (threw) { if (k) vrt::fail("connect threw after having started the child"); vrt::outcome("threw"); return; }
    if (k != l.completes.get()) vrt::fail("completed before its last iteration did");
    Rec& r = sc.rec; bool thrown = boom && G.thrown.get();
    int last = k ? l.how_done.get() : VALUE;
    switch (r.ch.get()) {
      case VALUE: if (k != s.n || last != VALUE || thrown) vrt::fail("completed with value after %d of %d iterations, the last of which completed with %s", k, s.n, chname(last)); if (r.n.get()) vrt::fail("delivered values"); break;
      case ERROR:
        if (thrown && r.code.get() == boom) break;
        if (last != ERROR || r.code.get() != l.val) vrt::fail("completed with error %d after %d iterations, the last of which completed with %s(%d)", r.code.get(), k, chname(last), l.val);
        break;
      default: if (last != STOPPED && !sc.stop_begun.get()) vrt::fail("completed with stopped although the last iteration completed with %s and stop was not requested", chname(last));
    }
    if (thrown && r.ch.get() != ERROR && !sc.stop_begun.get()) vrt::fail("an exception was lost");
    vrt::outcome("%s after %d", chname(r.ch.get()), k); vrt::observed(k);
  }
  template <class F> void go(F make) {
    bool threw = false;
    try { int at = vrt::choose(2); if (boom && at == 0) arm(vrt::range(1, 8), boom); auto snd = make(); sc.prepare(std::move(snd)); if (boom && at == 1) arm(vrt::range(1, 20), boom); }
    catch (Boom const& b) { if (b.code != boom) vrt::fail("wrong exception"); threw = true; }
    if (!threw) sc.drive();
    judge(threw);
  }
};
// the leaf's errors, but living in the operation state of the child
auto err_in_op(Setup& t) { return t.sc.s(0) | ex::let_error([](auto& e) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>, Err>) return ex::just_error(Err(std::move(e))); else return ex::just_error(std::exception_ptr(e)); }); }
auto child(Setup& t) { return err_in_op(t) | ex::then([own = Val(9), &t](Val v) { own.chk("used"); t.s.fns.inc(); (void)v.get(); }); }
VRT_SCENARIO_F(repeat_n, 0, 16) { int n = vrt::choose(7); Setup t(n); t.go([&] { return child(t) | exec::repeat_n(n); }); }
VRT_SCENARIO_F(repeat_n_nested, 0, 8) { int a = vrt::range(1, 4), b = vrt::range(1, 4); Setup t(a * b); t.go([&] { return child(t) | exec::repeat_n(a) | exec::repeat_n(b); }); }
struct Yes {                                     // converts to bool, and may throw doing so
  int* left; Val own{4};
  operator bool() const { throw_point(); own.chk("used"); return --*left <= 0; }
};
VRT_SCENARIO_F(repeat_until, 0, 16) {
  int n = vrt::range(1, 6), left = n; Setup t(n);
  switch (vrt::choose(3)) {
    case 0: t.go([&] { return child(t) | ex::then([&left]() noexcept { return --left <= 0; }) | exec::repeat_until(); }); break;
    case 1: t.go([&] { return child(t) | ex::then([&left] { return Yes{&left}; }) | exec::repeat_until(); }); break;
    default: t.go([&] { return child(t) | ex::let_value([&left, own = Val(2)] { own.chk("used"); return ex::just(--left <= 0); }) | exec::repeat_until(); });
  }
}
// repeat has no end of its own: error, stopped or a stop request
VRT_SCENARIO_F(repeat, 0, 8) {
  int n = vrt::range(1, 6); Setup t(n); t.s.how[n - 1] = t.s.how[n - 1] == VALUE ? ERROR : t.s.how[n - 1];
  for (int i = 0; i + 1 < n; i++) t.s.how[i] = VALUE;
  t.go([&] { return child(t) | exec::repeat(); });
  if (t.sc.rec.done() && t.sc.rec.ch.get() == VALUE) vrt::fail("repeat completed with value");
}
// a copy of the child that throws when it is connected again, and nothing else that can fail
VRT_SCENARIO_F(copy_throws, 0, 6) {
  Run run; Rec rec; rec.mode = (Mode)vrt::choose(3); int n = vrt::range(1, 6), left = n; bool threw = false;
  try {
    auto c = ex::just(Val(5)) | ex::then([&left](Val const&) noexcept { return --left <= 0; });
    auto s = std::move(c) | exec::repeat_until();
    if (vrt::chance(70)) arm(vrt::range(1, 8), 77);
    mon::connect(rec, std::move(s), NoEnv{});
  } catch (Boom const&) { threw = true; }
  if (!threw) { rec.start(); if (!rec.done()) vrt::fail("not completed"); if (G.thrown.get()) expect(rec, ERROR, 77); else { expect(rec, VALUE); if (left) vrt::fail("%d iterations missing", left); } }
  rec.destroy(); vrt::outcome("%s", threw ? "threw" : chname(rec.ch.get()));
}
// bounded stack
struct Depth { char* base; long max = 0; void at(char* p) { long d = base - p; if (d > max) max = d; } };
Depth* D;
__attribute__((noinline)) void mark() { char x; D->at(&x); }
template <class F> __attribute__((noinline)) long depth_of(F f, int expect_calls, int* calls) {
  char here; Depth d{&here}; D = &d; *calls = 0;
  Rec rec; rec.mode = KEEP; f(rec); rec.start(); expect(rec, VALUE); rec.destroy();
  if (*calls != expect_calls) vrt::fail("%d iterations ran, expected %d", *calls, expect_calls);
  return d.max;
}
VRT_SCENARIO_F(stack, vrt::F_SEQ, 2) {
  Run run; int calls = 0; int shape = vrt::choose(5); int small = vrt::range(30, 60), big = vrt::range(200, 500);
  auto body = ex::just() | ex::then([&calls]() noexcept { calls++; mark(); });
  auto one = [&](int n) {
    auto mk = [&](Rec& r) {
      int left = n;
      switch (shape) {
        case 0: mon::connect(r, body | exec::repeat_n(n), NoEnv{}); break;
        case 1: mon::connect(r, body | ex::then([left]() mutable noexcept { return false; }) | ex::then([&calls, n](bool) noexcept { return calls >= n; }) | exec::repeat_until(), NoEnv{}); break;
        case 2: mon::connect(r, body | exec::repeat_n(n / 10) | exec::repeat_n(10), NoEnv{}); break;
        case 3: mon::connect(r, ex::just() | ex::let_value([&] { return body; }) | exec::repeat_n(n), NoEnv{}); break;
        default: mon::connect(r, body | exec::repeat_n(10) | exec::repeat_n(n / 10), NoEnv{}); break;
      }
    };
    return depth_of(mk, shape == 2 || shape == 4 ? n / 10 * 10 : n, &calls);
  };
  long a = one(small), b = one(big);
  if (b > a + 2048) vrt::fail("the stack grows with the number of iterations: %ld bytes for %d, %ld bytes for %d", a, small, b, big);
  vrt::outcome("shape %d", shape); vrt::observed(calls);
}
// trampoline: a random tree of operations, each of which starts its children when it runs
struct Node; 
struct Tree {
  int budget, maxd, made = 0, nest = 0, max_nest = 0; exec::trampoline_scheduler sch; ex::inplace_stop_source src; int stop_at = -1, tid;
  vrt::cell<int> ran, stopped; std::vector<Node*> all; bool destroy_inside, deep;
  void spawn();
  ~Tree();
};
struct NRcv { using receiver_concept = ex::receiver_tag; Node* n; void set_value() noexcept; void set_stopped() noexcept; TokEnv get_env() const noexcept; };
struct Node {
  Tree* t; int id, ran = 0; std::optional<ex::connect_result_t<ex::schedule_result_t<exec::trampoline_scheduler>, NRcv>> op;
  void run(bool st) {
    if (D) mark();
    Tree* q = t;
    if (ran++) vrt::fail("a scheduled operation ran twice");
    if (vrt::tid() != q->tid) vrt::fail("ran on another thread");
    q->nest++; if (q->nest > q->max_nest) q->max_nest = q->nest;
    if (st) { q->stopped.inc(); if (!q->src.stop_requested()) vrt::fail("stopped without a stop request"); } else { q->ran.inc(); if (q->stop_at >= 0 && q->src.stop_requested()) vrt::fail("value after a stop request"); }
    if (id == q->stop_at) q->src.request_stop();
    if (q->destroy_inside) op.reset();           // the receiver may end its operation here
    int kids = q->deep ? 1 : vrt::choose(4);
    for (int i = 0; i < kids; i++) q->spawn();
    q->nest--;
  }
};
void NRcv::set_value() noexcept { n->run(false); }
void NRcv::set_stopped() noexcept { n->run(true); }
TokEnv NRcv::get_env() const noexcept { return TokEnv{n->t->src.get_token()}; }
void Tree::spawn() {
  if (made >= budget) return;
  Node* n = new Node{this, made++}; all.push_back(n);
  n->op.emplace(elide{[&] { return ex::connect(ex::schedule(sch), NRcv{n}); }});
  ex::start(*n->op);
}
Tree::~Tree() { for (auto* n : all) delete n; }
void tree() {
  Tree t{.budget = vrt::range(1, 40), .maxd = vrt::range(1, 6), .sch = exec::trampoline_scheduler()};
  bool dflt = vrt::chance(30); if (dflt) t.maxd = 16; else t.sch = exec::trampoline_scheduler(t.maxd, vrt::chance(50) ? 1 << 20 : 4096);
  t.tid = vrt::tid(); t.destroy_inside = vrt::chance(60); t.deep = vrt::chance(30); if (vrt::chance(30)) t.stop_at = vrt::choose(t.budget);
  while (t.made < t.budget) {
    int before = t.made; t.spawn();
    if (t.ran.get() + t.stopped.get() != t.made) vrt::fail("%d of %d operations have run when the outermost start returns", t.ran.get() + t.stopped.get(), t.made);
    if (t.made == before) break;
  }
  if (t.max_nest > t.maxd) vrt::fail("%d executions nested, the trampoline's limit is %d", t.max_nest, t.maxd);
  vrt::outcome("nest %d", t.max_nest); vrt::observed(t.made);
}
VRT_SCENARIO_F(trampoline, vrt::F_SEQ, 4) { D = nullptr; tree(); }
VRT_SCENARIO_F(trampoline_threads, 0, 4) { D = nullptr; std::thread a(tree), b(tree); tree(); a.join(); b.join(); }
// the limit on the size of the stack
VRT_SCENARIO_F(trampoline_size, vrt::F_SEQ, 1) {
  Tree t{.budget = vrt::range(50, 300), .maxd = 1 << 20, .sch = exec::trampoline_scheduler(1 << 20, 4096)};
  t.tid = vrt::tid(); t.destroy_inside = vrt::chance(60); t.deep = true;
  char here; Depth d{&here}; D = &d; t.spawn();
  if (t.ran.get() != t.budget) vrt::fail("%d of %d operations have run", t.ran.get(), t.budget);
  if (d.max > 4096 + 3500) vrt::fail("%ld bytes of stack for %d operations, although the limit is 4096", d.max, t.budget);
}
VRT_SCENARIO_F(scheduler_eq, vrt::F_SEQ, 1) {
  exec::trampoline_scheduler a, b, c(3);
  if (!(a == b) || a == c) vrt::fail("scheduler equality");
}
}  // namespace

// C07: when_all and its relatives.
#include "mon.hpp"
#include <exec/single_thread_context.hpp>
using namespace mon;

namespace {
bool nested_ = false;
int boom = 0;                                     // code of the throw injected into a move of a result, or 0
// what a when_all of the scene's leaves [a,b) may deliver
void at_completion(Scene* sc) noexcept {
  Rec& r = sc->rec;
  for (auto& l : sc->lv) if (l->starts.get() != 1) vrt::fail("%s was started %d times by the time when_all completed", l->name, l->starts.get());
  for (auto& l : sc->lv) if (!l->completes.get()) vrt::fail("when_all completed with %s before %s completed", chname(r.ch.get()), l->name);
  int errs = 0, stops = 0;
  for (auto& l : sc->lv) { errs += l->how_done.get() == ERROR; stops += l->how_done.get() == STOPPED; }
  bool thrown = boom && G.thrown.get();
  switch (r.ch.get()) {
    case VALUE:
      if (errs || stops || thrown) vrt::fail("when_all completed with value although %d children failed and %d were stopped%s", errs, stops, thrown ? " and storing a value threw" : "");
      break;
    case STOPPED:
      if (errs || thrown) vrt::fail("when_all completed with stopped although a child failed");
      if (!stops && !sc->stop_begun.get()) vrt::fail("when_all completed with stopped although nothing was stopped");
      break;
    case ERROR: {
      int code = r.code.get();
      if (thrown && code == boom) break;
      Leaf* w = nullptr;
      for (auto& l : sc->lv) if (l->how_done.get() == ERROR && l->val == code) w = l.get();
      if (!w) vrt::fail("when_all delivered error %d, which no child produced", code);
      for (auto& l : sc->lv) if (!nested_ && l.get() != w && l->how_done.get() == ERROR && l->t_end.get() && l->t_end.get() < w->t_begin.get()) vrt::fail("when_all delivered the error of %s although %s had failed before", w->name, l->name);
      break; }
  }
  vrt::outcome("%s of %d", chname(r.ch.get()), sc->n());
}
void shape(Scene& sc) {
  sc.check_at_completion = at_completion;
  boom = 0; nested_ = false;
  bool fail = false; int k = sc.n();
  for (int i = 0; i < k; i++) fail |= sc.L(i).how != VALUE;
  // children that complete only when stopped, where a stop request is certain to come
  if ((fail || sc.stop_planned()) && vrt::chance(50)) {
    int last = -1, cnt = 0;
    for (int i = 0; i < k; i++) { if (sc.L(i).how != VALUE) { last = i; cnt++; } }
    (void)cnt;
    for (int i = 0; i < k; i++) if ((sc.stop_planned() || i != last) && vrt::chance(50)) sc.never(i);
  }
  if (vrt::chance(15)) { G.moves_throw = true; boom = 77; vrt::describe("move throws"); }
}
template <class S> void run(Scene& sc, S&& s, std::initializer_list<int> vals) {
  sc.prepare((S&&)s);
  if (boom) arm(vrt::range(1, 2 * sc.n()), boom);
  sc.drive();
  if (sc.rec.ch.get() == VALUE) expect_values(sc.rec, vals);
}
VRT_SCENARIO_F(two, 0, 20) { Scene sc(2); shape(sc); run(sc, ex::when_all(sc.s(0), sc.s(1)), {sc.L(0).val, sc.L(1).val}); }
VRT_SCENARIO_F(three, 0, 16) { Scene sc(3, 75); shape(sc); run(sc, ex::when_all(sc.s(0), sc.s(1), sc.s(2)), {sc.L(0).val, sc.L(1).val, sc.L(2).val}); }
VRT_SCENARIO_F(four_just, 0, 8) { Scene sc(3, 80); shape(sc); run(sc, ex::when_all(sc.s(0), ex::just(7, 8), sc.s(1), sc.s(2)), {sc.L(0).val, 7, 8, sc.L(1).val, sc.L(2).val}); }
VRT_SCENARIO_F(nested, 0, 14) { Scene sc(4, 80); shape(sc); nested_ = true; run(sc, ex::when_all(ex::when_all(sc.s(0), sc.s(1)), ex::when_all(sc.s(2), sc.s(3))), {sc.L(0).val, sc.L(1).val, sc.L(2).val, sc.L(3).val}); }
VRT_SCENARIO_F(variants, 0, 8) {
  Scene sc(2, 75); shape(sc);
  auto one = [](auto v) { return std::move(std::get<0>(std::get<0>(v))); };
  run(sc, ex::when_all_with_variant(sc.s(0), sc.s(1)) | ex::then([one](auto a, auto b) { return one(std::move(a)).get() * 1000 + one(std::move(b)).get(); }), {sc.L(0).val * 1000 + sc.L(1).val});
}
VRT_SCENARIO_F(chained, 0, 8) {
  Scene sc(2, 75); shape(sc);
  run(sc, ex::when_all(sc.s(0) | ex::then([](Val v) noexcept { return v.get() + 1; }), sc.s(1) | ex::let_value([](Val& v) noexcept { return ex::just(v.get() + 2); })), {sc.L(0).val + 1, sc.L(1).val + 2});
}
// the only failures are stop: when_all of children that cannot fail or be stopped
struct just_later {                               // completes with value only, from another thread, ignoring stop
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(int)>;
  Completer* c; int v; vrt::cell<int>* done;
  template <class R> struct Op {
    using operation_state_concept = ex::operation_state_tag;
    R r; Completer* c; int v; vrt::cell<int>* done; Leaf lf; Shot s;
    Op(R r_, Completer* c_, int v_, vrt::cell<int>* d) noexcept : r((R&&)r_), c(c_), v(v_), done(d) { s.leaf = &lf; s.op = this; s.complete = [](Shot* q, int) noexcept { Op* o = (Op*)q->op; o->done->set(1); ex::set_value((R&&)o->r, o->v); }; }
    Op(Op&&) = delete;
    void start() & noexcept { c->give(&s); }
  };
  template <class R> auto connect(R r) const noexcept -> Op<R> { return Op<R>((R&&)r, c, v, done); }
};
VRT_SCENARIO_F(infallible, 0, 6) {
  Run run; Completer c; Rec rec; rec.mode = (Mode)vrt::choose(3); ex::inplace_stop_source src; vrt::cell<int> d[2];
  c.open();
  mon::connect(rec, ex::when_all(just_later{&c, 5, &d[0]}, just_later{&c, 6, &d[1]}), TokEnv{src.get_token()});
  std::thread t([&] { src.request_stop(); });
  rec.start(); rec.wait();
  if (!d[0].get() || !d[1].get()) vrt::fail("completed too early");
  t.join(); expect_values(rec, {5, 6}); rec.destroy();
}
VRT_SCENARIO_F(transfer, 0, 8) {
  vrt::cell<int> ctx_tid, at;
  exec::single_thread_context ctx;
  {
    Scene sc(2, 70); shape(sc);
    G.moves_throw = false; boom = 0;
    auto s = ex::transfer_when_all(ctx.get_scheduler(), sc.s(0), sc.s(1));
    if (sc.stop_mode != Scene::NO_STOP && vrt::chance(50)) sc.stop_mode = Scene::NO_STOP;
    for (int i = 0; i < 2; i++) if (sc.L(i).where == NEVER) sc.L(i).where = INLINE;
    sc.check_at_completion = [](Scene* q) noexcept { if (!q->stop_begun.get()) at_completion(q); else for (auto& l : q->lv) if (!l->completes.get()) vrt::fail("completed before %s", l->name); };
    sc.prepare(std::move(s));
    int me = vrt::tid();
    sc.drive();
    if (sc.rec.ch.get() == VALUE) expect_values(sc.rec, {sc.L(0).val, sc.L(1).val});
    if (!sc.stop_begun.get()) { if (sc.rec.tid.get() == me) vrt::fail("transfer_when_all completed on the starting thread"); for (auto& l : sc.lv) if (l->tid.get() == sc.rec.tid.get()) vrt::fail("transfer_when_all completed on the thread of %s", l->name); }
  }
}
}  // namespace

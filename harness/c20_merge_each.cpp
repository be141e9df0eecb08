// C20: merge_each over scripted sources of scripted sources.
#include "seq.hpp"
using namespace seq;
namespace {
template <class Mk> struct Nested {                                  // what the items of the outer source become
  Tracked tr{}; std::vector<std::unique_ptr<Src>>* srcs;
  src_sender<Mk> operator()(Val v) const { tr.chk(); throw_point(); G.calls.inc(); return src_sender<Mk>{(*srcs)[num(v) - 5000].get()}; }
};
template <class Mk> struct MakeNested { std::vector<std::unique_ptr<Src>>* srcs; auto operator()(leaf_sender l) const { return ex::then(l, Nested<Mk>{{}, srcs}); } };
struct unstoppable_env {};

template <bool Throws, bool Stoppable, class Mk = Plain> void run() {
  Scene sc(24, 84, 45);
  Consumer c; c.rec = &sc.rec;
  int used = 0;
  auto take = [&](const char* nm, int val) { Leaf* l = sc.lv[used++].get(); l->name = nm; l->val = val; return l; };
  std::vector<std::unique_ptr<Src>> srcs;
  static constexpr const char* snm[4] = {"nested 0", "nested 1", "nested 2", "nested 3"};
  static constexpr const char* inm[4][3] = {{"item 0.0", "item 0.1", "item 0.2"}, {"item 1.0", "item 1.1", "item 1.2"}, {"item 2.0", "item 2.1", "item 2.2"}, {"item 3.0", "item 3.1", "item 3.2"}};
  static constexpr const char* enm[4] = {"end 0", "end 1", "end 2", "end 3"};
  static constexpr const char* onm[4] = {"outer item 0", "outer item 1", "outer item 2", "outer item 3"};
  static constexpr const char* pnm[3] = {"proc 0", "proc 1", "proc 2"};
  if (!Stoppable) sc.stop_mode = Scene::NO_STOP;
  int k = vrt::range(0, 3), total = 0;
  Src outer; outer.name = "outer source"; outer.parallel = vrt::chance(60); outer.eager_free = vrt::chance(40);
  for (int i = 0; i < k; i++) {
    srcs.push_back(std::make_unique<Src>()); Src& s = *srcs.back(); s.name = snm[i];
    int m = vrt::range(0, 3); total += m;
    for (int j = 0; j < m; j++) s.items.push_back(take(inm[i][j], 1000 * (i + 1) + j));
    s.term = take(enm[i], 1000 * (i + 1) + 50 + i); s.parallel = vrt::chance(25); s.eager_free = vrt::chance(40);
    outer.items.push_back(take(onm[i], 5000 + i));
  }
  outer.term = take("outer end", 6000 + (int)vrt::choose(2));
  if (total && vrt::chance(25)) c.break_after = vrt::range(1, total);
  c.fail_breaks = vrt::chance(30);
  for (int i = 0, np = vrt::chance(40) ? vrt::range(1, 3) : 0; i < np && used < 24; i++) { Leaf* l = take(pnm[i], 900 + i); l->how = VALUE; l->onstop = IGNORE; c.proc.push_back(l); }
  bool throws = Throws && vrt::chance(25);
  if (throws) arm(vrt::range(1, 10), 77);
  // a source that ends only when asked to, when another one certainly fails
  if (k > 1 && !throws && vrt::chance(45)) {
    int trig = vrt::choose(k), vic = (trig + 1 + vrt::choose(k - 1)) % k;
    Src& t = *srcs[trig]; Src& v = *srcs[vic];
    outer.parallel = true;
    if (!t.items.empty() && vrt::chance(50)) { t.parallel = true; t.items[0]->how = ERROR; t.items[0]->onstop = IGNORE; }
    else { for (auto* l : t.items) l->how = VALUE, l->onstop = IGNORE; t.term->how = ERROR; t.term->onstop = IGNORE; c.break_after = 1 << 20; c.fail_breaks = false; }
    outer.items[trig]->how = VALUE; outer.items[trig]->onstop = IGNORE;
    Leaf* nl = v.items.empty() || vrt::chance(30) ? v.term : v.items[vrt::choose(v.items.size())];
    nl->where = NEVER; nl->onstop = INCB;
    vrt::cover("a nested sequence that ends only when asked to");
  }
  bool ok = true;
  try {
    src_sender<MakeNested<Mk>> os{&outer, MakeNested<Mk>{&srcs}};
    if constexpr (Stoppable) subscribe<Throws>(c, exec::merge_each(std::move(os)), TokEnv{sc.src->get_token()});
    else subscribe<Throws>(c, exec::merge_each(std::move(os)), NoEnv{});
  } catch (Boom const&) { ok = false; }
  if (!ok) return;
  sc.drive();
  // ---- what happened
  int ch = sc.rec.ch.get(), code = sc.rec.code.get();
  int err_items = 0, err_code = 0, err_at = -1, vals = 0, stops = 0;
  for (int i = 0; i < c.n.get(); i++) switch (c.got[i].ch.get()) { case ERROR: err_items++; err_code = c.got[i].code.get(); err_at = i; break; case STOPPED: stops++; break; default: vals++; }
  auto got_value = [&](int v) { int n = 0; for (int i = 0; i < c.n.get(); i++) n += c.got[i].ch.get() == VALUE && c.got[i].code.get() == v; return n; };
  std::vector<Leaf*> errs; bool stopped_outer = false; int want_vals = 0, want_stops = 0;
  for (auto& s : srcs) {
    int last = -1;
    if (s->starts.get() > 1) vrt::fail("%s was started %d times", s->name, s->starts.get());
    if (s->starts.get() != s->finished.get()) vrt::fail("%s has not finished although the sequence completed", s->name);
    if (s->issued.get() != s->completed.get()) vrt::fail("%s issued %d items, %d were completed", s->name, s->issued.get(), s->completed.get());
    for (auto* l : s->items) {
      if (l->starts.get() > 1 || l->starts.get() != l->completes.get()) vrt::fail("%s: started %d times, completed %d times", l->name, l->starts.get(), l->completes.get());
      int v = got_value(l->val), d = l->how_done.get();
      if (!l->starts.get()) { if (v) vrt::fail("%s is delivered although it was never started", l->name); continue; }
      if (d == VALUE) want_vals++; else want_stops++;
      if (v != (d == VALUE)) vrt::fail("%s completed with %s; its value was delivered %d times", l->name, chname(d), v);
      if (d == ERROR) errs.push_back(l);
      if (v && !s->parallel) { int at = -1; for (int i = 0; i < c.n.get(); i++) if (c.got[i].ch.get() == VALUE && c.got[i].code.get() == l->val) at = i;
        if (at < last) vrt::fail("%s is delivered out of order", l->name); last = at; }
    }
    if (s->starts.get() && s->term->starts.get() && s->fin_ch.get() == ERROR) errs.push_back(s->term);
  }
  if (outer.starts.get() != outer.finished.get()) vrt::fail("the outer source has not finished although the sequence completed");
  if (outer.issued.get() != outer.completed.get()) vrt::fail("the outer source issued %d items, %d were completed", outer.issued.get(), outer.completed.get());
  for (int i = 0; i < k; i++) {
    auto* l = outer.items[i];
    if (l->starts.get() != l->completes.get()) vrt::fail("%s: started %d times, completed %d times", l->name, l->starts.get(), l->completes.get());
    if (l->starts.get() && l->how_done.get() == ERROR) errs.push_back(l);
    if (l->starts.get() && l->how_done.get() == VALUE && !G.thrown.get() && srcs[i]->starts.get() != 1) vrt::fail("%s delivered a sequence that was started %d times", l->name, srcs[i]->starts.get());
  }
  if (outer.starts.get() && outer.term->starts.get() && outer.fin_ch.get() == ERROR) errs.push_back(outer.term);
  if (outer.starts.get() && outer.fin_ch.get() == STOPPED) stopped_outer = true;
  if (vals != want_vals) vrt::fail("%d values delivered, %d produced", vals, want_vals);
  if (stops != want_stops) vrt::fail("%d items were delivered as stopped, %d did not produce a value", stops, want_stops);
  if (err_items > 1) vrt::fail("%d errors are delivered", err_items);
  if (err_items && err_at != c.n.get() - 1) vrt::fail("the error is not the last item");
  bool thrown = G.thrown.get();
  if (err_items && ch == ERROR) vrt::fail("an error item was delivered and the sequence ended with an error too");
  if (err_items || ch == ERROR) {
    int e = err_items ? err_code : code; Leaf* w = nullptr;
    for (auto* l : errs) if (l->val == e) w = l;
    if (!w && !(thrown && e == 77)) vrt::fail("the error %d is reported but nobody produced it", e);
    if (w) first_wins: for (auto* x : errs) if (x != w && x->t_end.get() && w->t_begin.get() && x->t_end.get() < w->t_begin.get()) vrt::fail("%s's error is reported although %s had failed before", w->name, x->name);
    vrt::cover(err_items ? "merge_each: error item" : "merge_each: error");
  } else if (!errs.empty() || thrown) vrt::fail("%s failed but no error was reported (completed with %s)", errs.empty() ? "a function" : errs[0]->name, chname(ch));
  if (ch == STOPPED && !stopped_outer && !sc.stop_begun.get()) vrt::fail("completed as stopped although nothing was stopped");
  if (ch == VALUE && outer.issued.get() != k && !outer.broken.get() && !sc.stop_begun.get() && !err_items) vrt::fail("not every nested sequence was requested");
  if (ch == VALUE && stopped_outer && !err_items) vrt::fail("the outer source was stopped but the sequence completed with a value");
  vrt::cover(ch == VALUE ? "merge_each: value" : ch == STOPPED ? "merge_each: stopped" : "merge_each: error end");
}
VRT_SCENARIO_F(merge_each_t, 0, 4) { run<true, true>(); }
VRT_SCENARIO_F(merge_each_nothrow, 0, 4) { run<false, true>(); }
VRT_SCENARIO_F(merge_each_unstoppable, 0, 2) { run<true, false>(); }
}  // namespace

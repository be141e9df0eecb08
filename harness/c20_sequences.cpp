// C20: sequence senders deliver every item once and then finish once.
#include "seq.hpp"
#include <list>
#include <ranges>
#include <span>
using namespace seq;
namespace {

struct Seqs : Scene {
  Consumer c; std::vector<std::unique_ptr<Src>> srcs; int used = 0;
  int thrown_code = 0; bool throws = false;
  static constexpr const char* snm[6] = {"source 0", "source 1", "source 2", "source 3", "source 4", "source 5"};
  static constexpr const char* lnm[24] = {"item 0.0", "item 0.1", "item 0.2", "item 0.3", "item 1.0", "item 1.1", "item 1.2", "item 1.3", "item 2.0", "item 2.1", "item 2.2", "item 2.3",
    "item 3.0", "item 3.1", "item 3.2", "item 3.3", "end 0", "end 1", "end 2", "end 3", "proc 0", "proc 1", "proc 2", "proc 3"};
  explicit Seqs(int n_leaves, int values = 80, int inl = 45) : Scene(n_leaves, values, inl) { c.rec = &rec; c.user = this; }
  Leaf* take(const char* nm, int val) { Leaf* l = lv[used++].get(); l->name = nm; l->val = val; return l; }
  Src& source(int k, int base, bool eager = true) {
    int i = (int)srcs.size();
    srcs.push_back(std::make_unique<Src>());
    Src& s = *srcs.back(); s.name = snm[i];
    for (int j = 0; j < k; j++) s.items.push_back(take(lnm[i * 4 + j], base + j));
    s.term = take(lnm[16 + i], base + 50 + i);
    s.parallel = vrt::chance(25); s.eager_free = eager && vrt::chance(50);
    return s;
  }
  void consumer(int total) {
    if (total && vrt::chance(25)) c.break_after = vrt::range(1, total);
    c.fail_breaks = vrt::chance(30);
    int np = vrt::chance(40) ? vrt::range(1, 3) : 0;
    for (int i = 0; i < np && used < (int)lv.size(); i++) { Leaf* l = take(lnm[20 + i], 900 + i); l->how = VALUE; l->onstop = IGNORE; c.proc.push_back(l); }
  }
  void maybe_throw(int maxn) { if (vrt::chance(20)) { thrown_code = 77; throws = true; arm(vrt::range(1, maxn), 77); } }
  int got(int ch, int code) { int k = 0; for (int i = 0; i < c.n.get(); i++) k += c.got[i].ch.get() == ch && (ch == STOPPED || c.got[i].code.get() == code); return k; }
  // every item of s that was started was delivered as its leaf completed, exactly once, in the order of its source
  void items_of(Src& s, int delta, bool fail_as_stopped) {
    int last = -1;
    for (auto* l : s.items) {
      if (l->starts.get() > 1) vrt::fail("%s was started %d times", l->name, l->starts.get());
      if (l->starts.get() != l->completes.get()) vrt::fail("%s was started but its completion was not awaited", l->name);
      int d = l->how_done.get(), v = got(VALUE, l->val + delta), e = got(ERROR, l->val);
      if (!l->starts.get()) { if (v || e) vrt::fail("%s is delivered although it was never started", l->name); continue; }
      if (d == VALUE && !G.thrown.get() && v != 1) vrt::fail("%s produced a value which was delivered %d times", l->name, v);
      if (v > 1 || (d != VALUE && v)) vrt::fail("%s completed with %s and its value was delivered %d times", l->name, chname(d), v);
      if (!fail_as_stopped && d == ERROR && e != 1) vrt::fail("%s failed and its error was delivered %d times", l->name, e);
      if (v && !s.parallel) { int at = -1; for (int i = 0; i < c.n.get(); i++) if (c.got[i].ch.get() == VALUE && c.got[i].code.get() == l->val + delta) at = i;
        if (at < last) vrt::fail("%s is delivered out of order", l->name); last = at; }
    }
    if (s.starts.get() > 1) vrt::fail("%s was started %d times", s.name, s.starts.get());
    if (s.starts.get() != s.finished.get()) vrt::fail("%s started but has not finished although the sequence completed", s.name);
    if (s.issued.get() != s.completed.get()) vrt::fail("%s issued %d items but only %d were completed", s.name, s.issued.get(), s.completed.get());
  }
  int started_items() { int k = 0; for (auto& s : srcs) for (auto* l : s->items) k += l->starts.get() != 0; return k; }
  void no_extra(int extra = 0) { if (c.n.get() != started_items() + extra) vrt::fail("%d items were produced but %d delivered", started_items() + extra, c.n.get()); }
  bool breaks() { return c.broke.get() != 0; }
  // does this source certainly come to an end by itself?
  bool ends(Src& s) { for (auto* l : s.items) if (l->where == NEVER) return false; return s.term->where != NEVER; }
  void start() { drive(); }
};
struct Add {
  Tracked tr{}; int d = 10000;
  Val operator()(Val v) const { tr.chk(); throw_point(); G.calls.inc(); return Val(num(v) + d); }
};

// first of two errors: an error reported although another one had been completely delivered before is wrong
void first_wins(Leaf* winner, std::vector<Leaf*> const& errs) {
  for (auto* e : errs) if (e != winner && e->t_end.get() && winner->t_begin.get() && e->t_end.get() < winner->t_begin.get())
    vrt::fail("%s's error is reported although %s had failed before", winner->name, e->name);
}

// ---------------------------------------------------------------- iterate
template <class Mk> void iterate_with(Mk mk) {
  Seqs sc(4, 100);
  int n = vrt::chance(20) ? vrt::range(20, 120) : vrt::range(0, 5);
  sc.consumer(n);
  if (vrt::chance(30)) { sc.throws = true; arm(vrt::range(1, n + 2), 77); }
  bool direct = vrt::chance(50);
  { auto snd = mk(n); if (direct) subscribe(sc.c, std::move(snd), TokEnv{sc.src->get_token()}); else subscribe(sc.c, snd, TokEnv{sc.src->get_token()}); }
  sc.start();
  auto& c = sc.c;
  int vals = 0;
  for (int i = 0; i < c.n.get(); i++) {
    if (c.got[i].ch.get() == VALUE) { if (c.got[i].code.get() != 500 + i) vrt::fail("item %d of the range is delivered as %d", i, c.got[i].code.get()); vals++; }
    else if (c.got[i].ch.get() == STOPPED && sc.stop_begun.get()) ;
    else vrt::fail("item %d is %s", i, chname(c.got[i].ch.get()));
  }
  int ch = sc.rec.ch.get();
  if (G.thrown.get()) { if (ch != ERROR || sc.rec.code.get() != 77) vrt::fail("a failure to issue an item ends the sequence with %s(%d)", chname(ch), sc.rec.code.get()); return; }
  int m = std::min(n, c.break_after);
  if (!sc.stop_begun.get()) {
    if (vals != m) vrt::fail("%d items of a range of %d were delivered, expected %d", vals, n, m);
    if (ch != VALUE) vrt::fail("the sequence ended with %s", chname(ch));
  } else if (ch == ERROR) vrt::fail("the sequence failed");
  else if (ch == VALUE && vals != m && !sc.breaks()) vrt::fail("the sequence ended successfully after %d of %d items", vals, n);
}
VRT_SCENARIO_F(iterate_iota, 0, 2) { iterate_with([](int n) { return exec::iterate(std::views::iota(500, 500 + n)); }); }
VRT_SCENARIO_F(iterate_span, 0, 2) { std::vector<int> v(128); for (int i = 0; i < 128; i++) v[i] = 500 + i; iterate_with([&](int n) { return exec::iterate(std::span<int const>(v.data(), n)); }); }
VRT_SCENARIO_F(iterate_list, 0, 1) { std::list<int> v; iterate_with([&](int n) { for (int i = 0; i < n; i++) v.push_back(500 + i); return exec::iterate(std::views::all(v)); }); }

// ---------------------------------------------------------------- transform_each
VRT_SCENARIO_F(transform, 0, 3) {
  Seqs sc(12);
  Src& s = sc.source(vrt::range(0, 4), 1000);
  sc.consumer((int)s.items.size()); sc.maybe_throw(8);
  bool ok = true;
  try { subscribe(sc.c, exec::transform_each(src_sender<>{&s}, ex::then(Add{})), TokEnv{sc.src->get_token()}); } catch (Boom const& b) { ok = false; }
  if (!ok) return;
  sc.start();
  sc.items_of(s, 10000, false); sc.no_extra();
  int ch = sc.rec.ch.get();
  if (G.thrown.get()) return;
  if (G.calls.get() != sc.got(VALUE, 0) + [&] { int k = 0; for (auto* l : s.items) k += l->how_done.get() == VALUE && l->starts.get(); return k; }()) vrt::fail("the function of then was called %d times", G.calls.get());
  if (ch != s.fin_ch.get() || (ch == ERROR && sc.rec.code.get() != s.term->val)) vrt::fail("the source ended with %s(%d), the transformed sequence with %s(%d)", chname(s.fin_ch.get()), s.term->val, chname(ch), sc.rec.code.get());
  if (!sc.breaks() && s.issued.get() != (int)s.items.size()) vrt::fail("not every item was requested");
}

// ---------------------------------------------------------------- ignore_all_values
template <class Mk = Plain, class F> void ignored(F f) {
  Seqs sc(12);
  Src& s = sc.source(vrt::range(0, 4), 1000);
  sc.maybe_throw(8);
  bool ok = true;
  try { mon::connect(sc.rec, exec::ignore_all_values(f(src_sender<Mk>{&s})), TokEnv{sc.src->get_token()}); } catch (Boom const&) { ok = false; }
  if (!ok) return;
  sc.start();
  for (auto* l : s.items) if (l->starts.get() > 1 || l->starts.get() != l->completes.get()) vrt::fail("%s: started %d times, completed %d times", l->name, l->starts.get(), l->completes.get());
  if (s.finished.get() != 1 || s.issued.get() != s.completed.get()) vrt::fail("completed before its source had finished");
  std::vector<Leaf*> errs; bool stopped = false; Leaf* win = nullptr;
  for (auto* l : s.items) { if (!l->starts.get()) continue; if (l->how_done.get() == ERROR) errs.push_back(l); if (l->how_done.get() == STOPPED) stopped = true; }
  int ch = sc.rec.ch.get(), code = sc.rec.code.get();
  if (s.term->starts.get() && s.fin_ch.get() == ERROR) errs.push_back(s.term);
  if (s.fin_ch.get() == STOPPED) stopped = true;
  for (auto* l : errs) if (l->val == code) win = l;
  if (ch == ERROR) {
    if (!win && !(G.thrown.get() && code == 77)) vrt::fail("completed with an error (%d) nobody produced", code);
    std::vector<Leaf*> item_errs(errs); if (win && win != s.term) first_wins(win, item_errs);
  }
  if (ch == STOPPED && !stopped && !sc.stop_begun.get()) vrt::fail("completed as stopped although nothing was stopped");
  if (ch == VALUE && (!errs.empty() || stopped || G.thrown.get())) vrt::fail("completed with a value although %s", stopped ? "an item or the source was stopped" : "an item or the source failed");
  if (!errs.empty() && ch == STOPPED && !stopped && !sc.stop_begun.get()) vrt::fail("the error was dropped");
  if (!errs.empty() && !stopped && !sc.stop_begun.get() && ch != ERROR) vrt::fail("an item failed but the sequence completed with %s", chname(ch));
  if (ch == VALUE && s.issued.get() != (int)s.items.size()) vrt::fail("completed with a value without requesting every item");
  if (!s.parallel) for (size_t i = 0; i + 1 < s.items.size(); i++) if (s.items[i]->starts.get() && s.items[i]->how_done.get() != VALUE && s.items[i + 1]->starts.get()) vrt::fail("%s was started although %s had %s", s.items[i + 1]->name, s.items[i]->name, s.items[i]->how_done.get() == ERROR ? "failed" : "been stopped");
}
VRT_SCENARIO_F(ignore_all, 0, 3) { ignored([](auto s) { return s; }); }
VRT_SCENARIO_F(ignore_transformed, 0, 3) { ignored([](auto s) { return exec::transform_each(std::move(s), ex::then(Add{})); }); }

VRT_SCENARIO_F(ignore_refs, 0, 2) { ignored<ByRef>([](auto s) { return s; }); }
VRT_SCENARIO_F(ignore_transformed_refs, 0, 2) { ignored<ByRef>([](auto s) { return exec::transform_each(std::move(s), ex::then(Add{})); }); }

// ---------------------------------------------------------------- merge
template <class F> void merged(int k, F f) {
  Seqs sc(20, 82);
  int total = 0;
  for (int i = 0; i < k; i++) { int m = vrt::range(0, 3); total += m; sc.source(m, 1000 * (i + 1)); }
  sc.consumer(total); sc.maybe_throw(10);
  // something that only ends when asked to, if something else certainly asks
  if (k > 1 && vrt::chance(40)) {
    int trig = vrt::choose(k), vic = (trig + 1 + vrt::choose(k - 1)) % k;
    auto& t = *sc.srcs[trig]; auto& v = *sc.srcs[vic];
    t.term->how = vrt::chance(50) ? ERROR : STOPPED;
    Leaf* nl = v.items.empty() || vrt::chance(30) ? v.term : v.items[vrt::choose(v.items.size())];
    nl->where = NEVER; nl->onstop = INCB;
    vrt::cover("a source that ends only when asked to");
  }
  bool ok = true;
  try { subscribe(sc.c, f(sc), TokEnv{sc.src->get_token()}); } catch (Boom const&) { ok = false; }
  if (!ok) return;
  sc.start();
  std::vector<Leaf*> errs; Leaf* win = nullptr; bool stopped = false, all = true;
  int ch = sc.rec.ch.get(), code = sc.rec.code.get();
  for (auto& s : sc.srcs) {
    sc.items_of(*s, 0, false);
    if (s->starts.get() && s->fin_ch.get() == ERROR && s->term->starts.get()) { errs.push_back(s->term); if (s->term->val == code) win = s->term; }
    if (s->fin_ch.get() == STOPPED) stopped = true;
    if (s->issued.get() != (int)s->items.size()) all = false;
    if (!s->starts.get() && !sc.stop_begun.get()) vrt::fail("%s was never started", s->name);
  }
  sc.no_extra();
  bool other = stopped || sc.breaks() || sc.stop_begun.get();
  if (ch == ERROR) { if (!win && !(G.thrown.get() && code == 77)) vrt::fail("merge completed with an error (%d) nobody produced", code); if (win) first_wins(win, errs); vrt::cover("merge: error"); }
  if (ch == STOPPED && !other) vrt::fail("merge completed as stopped although nothing was stopped");
  if (ch == VALUE && (!errs.empty() || stopped || G.thrown.get())) vrt::fail("merge completed successfully although a source %s", stopped ? "was stopped" : "failed");
  if (ch == VALUE && !all && !sc.breaks()) vrt::fail("merge completed successfully without requesting every item");
  if ((!errs.empty()) && !other && ch != ERROR) vrt::fail("a source failed but merge completed with %s", chname(ch));
}
VRT_SCENARIO_F(merge1, 0, 1) { merged(1, [](Seqs& sc) { return exec::merge(src_sender<>{sc.srcs[0].get()}); }); }
VRT_SCENARIO_F(merge2, 0, 3) { merged(2, [](Seqs& sc) { return exec::merge(src_sender<>{sc.srcs[0].get()}, src_sender<>{sc.srcs[1].get()}); }); }
VRT_SCENARIO_F(merge3, 0, 3) { merged(3, [](Seqs& sc) { return exec::merge(src_sender<>{sc.srcs[0].get()}, src_sender<>{sc.srcs[1].get()}, src_sender<>{sc.srcs[2].get()}); }); }
VRT_SCENARIO_F(merge_empty, 0, 1) { merged(2, [](Seqs& sc) { return exec::merge(src_sender<>{sc.srcs[0].get()}, exec::empty_sequence(), src_sender<>{sc.srcs[1].get()}); }); }
}  // namespace
namespace {
// the frames of successive items do not pile up
vrt::cell<long> lo_frame, hi_frame;
VRT_SCENARIO_F(iterate_depth, 0, 1) {
  Seqs sc(2, 100); sc.stop_mode = Scene::NO_STOP;
  int n = 200; lo_frame.set(0); hi_frame.set(0);
  sc.c.on_item = [](Consumer*, int) noexcept { long f = (long)__builtin_frame_address(0); if (!lo_frame.get() || f < lo_frame.get()) lo_frame.set(f); if (f > hi_frame.get()) hi_frame.set(f); };
  subscribe(sc.c, exec::iterate(std::views::iota(0, n)), TokEnv{sc.src->get_token()});
  sc.start();
  if (sc.c.n.get() != n) vrt::fail("%d of %d items delivered", sc.c.n.get(), n);
  if (hi_frame.get() - lo_frame.get() > 60000) vrt::fail("the stack grows with the number of items: %ld bytes for %d items", hi_frame.get() - lo_frame.get(), n);
  if (getenv("VRT_DEPTH")) fprintf(stderr, "%ld\n", hi_frame.get() - lo_frame.get());
}
}  // namespace

#pragma once
// Scripted sequence sources and a recording consumer.
#include "mon.hpp"
#include <exec/sequence_senders.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>

namespace seq {
using namespace mon;

// A source: issues its items one after the other (or all at once), each produced by a scripted leaf, and then ends the way
// the leaf `term` completes.
struct Src {
  const char* name = "source";
  std::vector<Leaf*> items;
  Leaf* term = nullptr;
  bool parallel = false, eager_free = false;
  vrt::cell<int> starts, issued, completed, broken, finished, fin_ch, thrown, live, after_break;
};

template <class R, class MakeItem> struct SrcOp {
  using operation_state_concept = ex::operation_state_tag;
  using item_t = std::invoke_result_t<MakeItem, leaf_sender>;
  using next_t = exec::next_sender_of_t<R, item_t>;
  R r; Src* s; MakeItem mk; unsigned magic = Val::LIVE;
  std::atomic<int> outstanding{0}, brk{0}, threw{0};
  std::exception_ptr ep;
  struct NextRcv {
    using receiver_concept = ex::receiver_tag;
    SrcOp* op; int i; vrt::cell<int>* done;
    void set_value() noexcept { op->item_done(i, done, false); }
    void set_stopped() noexcept { op->item_done(i, done, true); }
    auto get_env() const noexcept -> ex::env_of_t<R> { op->chk(); return ex::get_env(op->r); }
  };
  struct TermRcv {
    using receiver_concept = ex::receiver_tag;
    SrcOp* op;
    void fin(int ch) noexcept { op->chk(); if (op->s->finished.inc() != 1) vrt::fail("harness: source finished twice"); op->s->fin_ch.set(ch); }
    void set_value(Val&& v) noexcept { consume(v); fin(VALUE); ex::set_value((R&&)op->r); }
    template <class E> void set_error(E&& e) noexcept { fin(ERROR); ex::set_error((R&&)op->r, (E&&)e); }
    void set_stopped() noexcept { fin(STOPPED); ex::set_stopped((R&&)op->r); }
    auto get_env() const noexcept -> ex::env_of_t<R> { op->chk(); return ex::get_env(op->r); }
  };
  std::unique_ptr<OpBase> op[6]; vrt::cell<int> op_done[6];
  using term_t = ex::connect_result_t<leaf_sender, TermRcv>;
  std::optional<term_t> term;
  SrcOp(R r_, Src* s_, MakeItem m) noexcept : r((R&&)r_), s(s_), mk(std::move(m)) { s->live.inc(); }
  SrcOp(SrcOp&&) = delete;
  void chk() const { if (magic != Val::LIVE) vrt::fail("%s: its operation was destroyed while it was running", s->name); }
  ~SrcOp() { chk(); magic = Val::DEAD; s->live.inc(-1);
    if (s->starts.get() && !s->finished.get()) vrt::fail("%s: operation destroyed before it finished", s->name); }
  void start() & noexcept {
    chk(); Src* q = s;
    if (q->starts.inc() != 1) vrt::fail("%s: started twice", q->name);
    int k = (int)q->items.size();
    if (q->parallel) {
      outstanding.store(k + 1, std::memory_order_relaxed);
      for (int i = 0; i < k; i++) if (!issue(i)) one_done();
      one_done();
    } else next(0);
  }
  bool issue(int i) noexcept {
    s->issued.inc();
    try {
      op[i].reset(new OpOf<next_t, NextRcv>(exec::set_next(r, mk(leaf_sender{s->items[i]})), NextRcv{this, i, &op_done[i]}));
    } catch (...) {
      s->thrown.inc(); s->issued.inc(-1);
      if (!threw.exchange(1, std::memory_order_relaxed)) ep = std::current_exception();
      return false;
    }
    op[i]->start();
    return true;
  }
  void next(int i) noexcept {
    if (brk.load(std::memory_order_relaxed) || i == (int)s->items.size()) return finish();
    if (!issue(i)) finish();
  }
  void one_done() noexcept { if (outstanding.fetch_sub(1, std::memory_order_acq_rel) == 1) finish(); }
  void item_done(int i, vrt::cell<int>* d, bool b) noexcept {
    chk(); s->completed.inc();
    if (d->inc() != 1) vrt::fail("%s: the next-receiver of item %d was completed twice", s->name, i);
    if (b) { s->broken.set(1); brk.store(1, std::memory_order_relaxed); }
    if (s->eager_free) op[i].reset();
    if (s->parallel) one_done(); else next(i + 1);
  }
  void finish() noexcept {
    if (threw.load(std::memory_order_relaxed)) { s->finished.inc(); s->fin_ch.set(ERROR); ex::set_error((R&&)r, std::move(ep)); return; }
    if (brk.load(std::memory_order_relaxed)) {
      bool st = ex::get_stop_token(ex::get_env(r)).stop_requested();
      s->finished.inc(); s->fin_ch.set(st ? STOPPED : VALUE);
      if (st) ex::set_stopped((R&&)r); else ex::set_value((R&&)r);
      return;
    }
    term.emplace(elide{[&] { return ex::connect(leaf_sender{s->term}, TermRcv{this}); }});
    ex::start(*term);
  }
};
struct Plain { leaf_sender operator()(leaf_sender l) const noexcept { return l; } };
// items that deliver their errors (and values) as references to const
template <class R> struct RefRcv {
  using receiver_concept = ex::receiver_tag;
  R r;
  void set_value(Val&& v) noexcept { ex::set_value((R&&)r, std::as_const(v)); }
  void set_error(Err&& e) noexcept { ex::set_error((R&&)r, std::as_const(e)); }
  void set_error(std::exception_ptr&& e) noexcept { ex::set_error((R&&)r, std::move(e)); }
  void set_stopped() noexcept { ex::set_stopped((R&&)r); }
  auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(r); }
};
struct ref_sender {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(Val const&), ex::set_error_t(Err const&), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  leaf_sender l;
  template <class R> auto connect(R r) const { return ex::connect(l, RefRcv<R>{(R&&)r}); }
};
struct ByRef { ref_sender operator()(leaf_sender l) const noexcept { return {l}; } };
template <class MakeItem = Plain> struct src_sender {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  using item_types = exec::item_types<std::invoke_result_t<MakeItem, leaf_sender>>;
  Src* s; MakeItem mk{}; Tracked tr{};
  template <class R> auto subscribe(R r) const noexcept -> SrcOp<R, MakeItem> { tr.chk(); return SrcOp<R, MakeItem>((R&&)r, s, mk); }
};

// The consumer of a sequence: records every item and answers each with "go on" or "break".
struct Consumer {
  Rec* rec = nullptr;
  vrt::cell<int> active, n, done_items, ended, broke;
  struct Got { vrt::cell<int> ch, code, t0, t1; } got[256];
  int break_after = 1 << 20;                     // answers "break" from this item on
  bool fail_breaks = false;                      // answers "break" to an item that fails or is stopped
  std::vector<Leaf*> proc;                       // processing of item i (asynchronous if present)
  void* user = nullptr;
  void (*on_item)(Consumer*, int idx) noexcept = nullptr;
};
template <class Item, class R> struct ConsumeOp {
  using operation_state_concept = ex::operation_state_tag;
  struct ItemRcv {
    using receiver_concept = ex::receiver_tag;
    ConsumeOp* op;
    template <class... A> void set_value(A&&... a) noexcept { int x[] = {num(a)..., 0}; ([&] { if constexpr (!std::is_lvalue_reference_v<A>) consume(a); }(), ...); op->got(VALUE, x[0]); }
    template <class E> void set_error(E&& e) noexcept { op->got(ERROR, code_of(e)); }
    void set_stopped() noexcept { op->got(STOPPED, 0); }
    auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(op->r); }
  };
  struct ProcRcv {
    using receiver_concept = ex::receiver_tag;
    ConsumeOp* op;
    template <class... A> void set_value(A&&...) noexcept { op->done(false); }
    template <class E> void set_error(E&&) noexcept { op->done(false); }
    void set_stopped() noexcept { op->done(false); }
    auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(op->r); }
  };
  R r; Consumer* c; unsigned magic = Val::LIVE; int idx = -1; int mine = 0;
  ex::connect_result_t<Item, ItemRcv> inner;
  std::optional<ex::connect_result_t<leaf_sender, ProcRcv>> proc;
  ConsumeOp(R r_, Consumer* c_, Item&& it) : r((R&&)r_), c(c_), inner(ex::connect((Item&&)it, ItemRcv{this})) {}
  ConsumeOp(ConsumeOp&&) = delete;
  ~ConsumeOp() { if (magic != Val::LIVE) vrt::fail("an item operation is destroyed twice"); magic = Val::DEAD; if (mine == 1) vrt::fail("an item operation is destroyed while it is running"); }
  void start() & noexcept { if (c->ended.get()) vrt::fail("an item is started after the sequence completed"); if (mine) vrt::fail("an item operation is started twice"); mine = 1; c->active.inc(); ex::start(inner); }
  void got(int ch, int code) noexcept {
    if (magic != Val::LIVE || mine != 1) vrt::fail("an item is delivered to an item operation that %s", magic != Val::LIVE ? "is gone" : "is not running");
    if (c->ended.get()) vrt::fail("an item is delivered after the sequence completed");
    if (idx >= 0) vrt::fail("an item is delivered twice");
    vrt::observed();
    idx = c->n.inc() - 1;
    if (idx >= 256) vrt::fail("more than 256 items");
    auto& g = c->got[idx]; g.ch.set(ch); g.code.set(code); g.t0.set(G.clock.inc());
    if (c->on_item) c->on_item(c, idx);
    if (idx < (int)c->proc.size() && c->proc[idx]) {
      proc.emplace(elide{[&] { return ex::connect(leaf_sender{c->proc[idx]}, ProcRcv{this}); }});
      return ex::start(*proc);
    }
    done(false);
  }
  void done(bool) noexcept {
    bool b = idx + 1 >= c->break_after || (c->fail_breaks && c->got[idx].ch.get() != VALUE);
    c->active.inc(-1); c->done_items.inc(); mine = 2; c->got[idx].t1.set(G.clock.inc());
    if (b) { c->broke.inc(); ex::set_stopped((R&&)r); } else ex::set_value((R&&)r);
  }
};
template <class Item> struct consume_sender {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
  Consumer* c; Item it;
  template <class R> auto connect(R r) && -> ConsumeOp<Item, R> { return {(R&&)r, c, (Item&&)it}; }
  template <class R> auto connect(R r) const & -> ConsumeOp<Item, R> { return {(R&&)r, c, Item(it)}; }
};
template <bool Throws = true, class Env = TokEnv> struct SeqRcv {
  using receiver_concept = ex::receiver_tag;
  Consumer* c; Env env; unsigned magic = Val::LIVE;
  SeqRcv(Consumer* c_, Env e) noexcept : c(c_), env(e) { G.rcvrs.inc(); }
  SeqRcv(SeqRcv const& o) noexcept : c(o.c), env(o.env) { o.chk(); G.rcvrs.inc(); }
  SeqRcv(SeqRcv&& o) noexcept : c(o.c), env(o.env) { o.chk(); G.rcvrs.inc(); }
  ~SeqRcv() { chk(); magic = Val::DEAD; G.rcvrs.inc(-1); }
  void chk() const noexcept { if (magic != Val::LIVE) vrt::fail("a receiver is used or destroyed after its destruction"); }
  template <class Item> auto set_next(Item&& it) & noexcept(!Throws) -> consume_sender<std::decay_t<Item>> {
    chk();
    if (c->ended.get()) vrt::fail("a next item is issued after the sequence completed");
    if constexpr (Throws) throw_point();
    return {c, (Item&&)it};
  }
  void end(int ch, int code) noexcept {
    Consumer* q = c;
    if (q->active.get()) vrt::fail("the sequence completed while %d item operations were still running", q->active.get());
    q->ended.set(1);
    q->rec->note(ch, code); q->rec->complete();
  }
  void set_value() noexcept { chk(); end(VALUE, 0); }
  template <class E> void set_error(E&& e) noexcept { chk(); end(ERROR, code_of(e)); }
  void set_stopped() noexcept { chk(); end(STOPPED, 0); }
  Env get_env() const noexcept { chk(); return env; }
};
template <class S, class R> struct SubOp : OpBase {
  exec::subscribe_result_t<S, R> op;
  SubOp(S&& s, R r) : op(exec::subscribe((S&&)s, (R&&)r)) {}
  void start() noexcept override { ex::start(op); }
};
template <bool Throws = true, class Env = TokEnv, class S> void subscribe(Consumer& c, S&& s, Env env = {}) {
  using R = SeqRcv<Throws, Env>;
  c.rec->op = new SubOp<S, R>((S&&)s, R(&c, env));
}
}  // namespace seq

// C12: block-based work-stealing queue.
#include "vrt.hpp"
#include <stdexec/execution.hpp>
#include <exec/detail/bwos_lifo_queue.hpp>
#include <memory>
#include <thread>
#include <vector>

namespace {
struct Node {
  int id;
  int data = 0;                    // plain: written before the push, read by whoever obtains the node
  vrt::cell<int> taken, pushed, push_seq, taken_seq;
};
using queue_t = exec::bwos::lifo_queue<Node*>;
enum { MAXN = 40 };
struct World {
  std::unique_ptr<queue_t> q;
  std::vector<std::unique_ptr<Node>> n;
  vrt::cell<int> pushed, popped, stolen, inflight;
};
VRT_NOINSTR Node* check_known(World& w, Node* p) {
  for (auto& u : w.n) if (u.get() == p) return p;
  vrt::fail("the queue returned a pointer that was never pushed");
}
void take(World& w, Node* p, bool steal) {
  { vrt::quiet q; check_known(w, p); }
  vrt::observed();
  vrt::log(steal ? 2 : 3, p->id);
  if (!p->pushed.get()) vrt::fail("element %d returned by %s although its push reported no room", p->id, steal ? "steal" : "pop");
  if (p->taken.inc() != 1) vrt::fail("element %d taken twice (second time by %s)", p->id, steal ? "steal" : "pop");
  if (p->data != 1000 + p->id) vrt::fail("element %d: the pusher's writes are not visible to the taker", p->id);
  p->data = -1;
}
Node* mk(World& w) {
  auto u = std::make_unique<Node>();
  u->id = (int)w.n.size();
  u->data = 1000 + u->id;
  Node* p = u.get();
  vrt::quiet q;
  w.n.push_back(std::move(u));
  return p;
}
void push(World& w, Node* p) {
  p->pushed.set(1); w.pushed.inc();
  if (!w.q->push_back(p)) { p->pushed.set(0); w.pushed.inc(-1); vrt::cover("push reports full"); }
  else vrt::log(1, p->id);
}
void push_many(World& w, int k) {
  std::vector<Node*> v;
  for (int i = 0; i < k; i++) { v.push_back(mk(w)); v.back()->pushed.set(1); w.pushed.inc(); }
  auto it = w.q->push_back(v.begin(), v.end());
  if (it != v.end()) vrt::cover("bulk push partial");
  for (auto i = it; i != v.end(); ++i) { (*i)->pushed.set(0); w.pushed.inc(-1); if ((*i)->taken.get()) vrt::fail("bulk push says element %d was not stored but it was taken", (*i)->id); }
}
VRT_NOINSTR void lifo_check(World& w, Node* p) {
  // everything stored after p that is still there and that no steal can currently be holding?
  int later = 0;
  for (unsigned i = p->id + 1; i < w.n.size(); i++) if (w.n[i]->pushed.get() && !w.n[i]->taken.get()) later++;
  if (later > w.inflight.get()) vrt::fail("pop returned element %d while %d later elements are still stored and only %d steals are in flight", p->id, later, w.inflight.get());
}
Node* pop(World& w) {
  Node* p = w.q->pop_back();
  if (p) { take(w, p, false); w.popped.inc(); lifo_check(w, p); }
  else {
    int left = w.pushed.get() - w.popped.get() - w.stolen.get();
    if (left > w.inflight.get()) vrt::fail("pop found the queue empty with %d elements stored and %d steals in flight", left, w.inflight.get());
    vrt::cover("pop on empty");
  }
  return p;
}
Node* steal(World& w) {
  w.inflight.inc();
  Node* p = w.q->steal_front();
  if (p) { take(w, p, true); w.stolen.inc(); }
  w.inflight.inc(-1);
  return p;
}
void run(int thieves, int maxops) {
  World w;
  unsigned nb = vrt::range(1, 4), bs = vrt::range(1, 3);
  w.q.reset(new queue_t(nb, bs));
  w.n.reserve(MAXN);
  int pre = vrt::choose(nb * bs + 1);
  vrt::describe("blocks=%zu bs=%u thieves=%d prefill=%d", w.q->num_blocks(), bs, thieves, pre);
  for (int i = 0; i < pre; i++) push(w, mk(w));
  std::vector<std::thread> ts;
  for (int t = 0; t < thieves; t++)
    ts.emplace_back([&w, k = (int)vrt::range(1, 4)] { for (int i = 0; i < k; i++) { if (steal(w)) vrt::cover("steal hit"); else vrt::cover("steal miss"); } });
  int k = vrt::range(1, maxops), bias = vrt::choose(3);
  for (int i = 0; i < k && (int)w.n.size() < MAXN - 4; i++) {
    switch (vrt::choose(4)) {
      case 0: push(w, mk(w)); break;
      case 1: pop(w); break;
      case 2: if (vrt::chance(40)) push_many(w, vrt::range(1, 4)); else push(w, mk(w)); break;
      case 3: if (bias == 0) push(w, mk(w)); else if (bias == 1) pop(w); else { pop(w); push(w, mk(w)); } break;
    }
  }
  for (auto& t : ts) t.join();
  while (pop(w)) {}
  int lost = 0;
  for (auto& u : w.n) if (u->pushed.get() && !u->taken.get()) lost++;
  if (lost) vrt::fail("%d elements were lost", lost);
  push(w, mk(w));
  if (!w.n.back()->pushed.get()) vrt::fail("push refused by an empty queue");
  if (pop(w) != w.n.back().get()) vrt::fail("pop did not return the only element");
  vrt::outcome("popped=%d stolen=%d", w.popped.get() > 8 ? 9 : w.popped.get(), w.stolen.get());
}
}  // namespace

VRT_SCENARIO_F(c12_steal1, 0, 30) { run(1, 12); }
VRT_SCENARIO_F(c12_steal2, 0, 30) { run(2, 12); }
VRT_SCENARIO_F(c12_steal3, 0, 20) { run(3, 14); }
// sequential differential test: owner and thief operations interleaved on one thread against a stack
VRT_SCENARIO_F(c12_seq, vrt::F_SEQ, 20) {
  World w;
  unsigned nb = vrt::range(1, 5), bs = vrt::range(1, 4);
  w.q.reset(new queue_t(nb, bs));
  w.n.reserve(MAXN * 3);
  std::vector<Node*> st;
  if (w.q->block_size() != bs || w.q->num_blocks() < nb) vrt::fail("geometry: %zu blocks of %zu", w.q->num_blocks(), w.q->block_size());
  size_t cap = w.q->num_blocks() * bs;
  int k = vrt::range(1, 60);
  bool fresh = true;
  for (int i = 0; i < k; i++) {
    switch (vrt::choose(5)) {
      case 0: case 1: {
        Node* p = mk(w); push(w, p);
        if (p->pushed.get()) st.push_back(p);
        else if (st.empty()) vrt::fail("push refused by an empty queue");
        else if (fresh && st.size() < cap) vrt::fail("push refused at %zu of %zu", st.size(), cap);
        break; }
      case 2: {
        Node* p = pop(w);
        if (st.empty() ? p != nullptr : p != st.back()) vrt::fail("pop returned %d, expected %d", p ? p->id : -1, st.empty() ? -1 : st.back()->id);
        if (p) st.pop_back();
        break; }
      case 3: {
        Node* p = steal(w);
        if (p) { fresh = false; if (st.empty() || p != st.front()) vrt::fail("steal returned %d, expected the oldest, %d", p->id, st.empty() ? -1 : st.front()->id); st.erase(st.begin()); }
        else if (st.size() > bs) vrt::fail("steal found nothing with %zu elements stored in blocks of %u", st.size(), bs);
        break; }
      case 4: { int j = vrt::range(1, 5); size_t a = w.n.size(); push_many(w, j); for (; a < w.n.size(); a++) if (w.n[a]->pushed.get()) st.push_back(w.n[a].get()); break; }
    }
    if (st.size() > cap) vrt::fail("%zu elements stored, capacity %zu", st.size(), cap);
    if (w.n.size() > MAXN * 3 - 8) break;
  }
  while (!st.empty()) { Node* p = pop(w); if (p != st.back()) vrt::fail("drain: pop returned %d, expected %d", p ? p->id : -1, st.back()->id); st.pop_back(); }
  if (pop(w)) vrt::fail("pop returned something from an empty queue");
}

// C13: the intrusive concurrent queues used by the schedulers.
#include "vrt.hpp"
#include <stdexec/execution.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace ex = STDEXEC;

namespace {
struct ANode { std::atomic<ANode*> next{nullptr}; int data = 0; int prod = -1, seq = -1; };
struct PNode { PNode* next = nullptr; int data = 0; int prod = -1, seq = -1; };
struct Mon {
  vrt::cell<int> seen[8], last[8];
  vrt::cell<int> pushed[8];
  int total = 0;
};
VRT_NOINSTR void m_take(Mon& m, int prod, int seq) {
  vrt::observed(); vrt::log(1, prod, seq);
  if (prod < 0 || prod >= 8) vrt::fail("the queue handed out a node nobody pushed");
  if (seq != m.seen[prod].get()) vrt::fail("producer %d: node %d handed out when node %d was next (lost, duplicated or reordered)", prod, seq, m.seen[prod].get());
  if (seq >= m.pushed[prod].get()) vrt::fail("producer %d: node %d handed out before it was pushed", prod, seq);
  m.seen[prod].inc();
}
template <class N> void consume(Mon& m, N* n) {
  m_take(m, n->prod, n->seq);
  if (n->data != 77 + n->seq) vrt::fail("the producer's writes are not visible to the consumer");
  delete n;                        // the consumer may free a node as soon as it was popped
}
template <class N> N* mk(Mon& m, int p, int i) { N* n = new N; n->prod = p; n->seq = i; n->data = 77 + i; m.pushed[p].set(i + 1); return n; }
struct Gate { std::mutex m; std::condition_variable cv; bool ready = false; };

void mpsc(int P) {
  using Q = ex::__intrusive_mpsc_queue<&ANode::next>;
  auto q = std::make_unique<Q>();
  Mon m; Gate g; int k[8], total = 0;
  for (int p = 0; p < P; p++) total += k[p] = vrt::range(1, 4);
  vrt::describe("producers=%d total=%d", P, total);
  std::vector<std::thread> ts;
  for (int p = 0; p < P; p++) ts.emplace_back([&, p] {
    for (int i = 0; i < k[p]; i++)
      if (q->push_back(mk<ANode>(m, p, i))) { vrt::cover("push reported empty"); std::scoped_lock l(g.m); g.ready = true; g.cv.notify_one(); }
      else vrt::cover("push reported non-empty");
  });
  int got = 0;
  while (got < total) {            // the timed scheduler's protocol: drain, then sleep until told
    while (ANode* n = q->pop_front()) { consume(m, n); got++; if (vrt::chance(20)) vrt::point(); }
    if (got == total) break;
    std::unique_lock l(g.m);
    if (!g.ready) vrt::cover("consumer sleeps");
    g.cv.wait(l, [&] { return g.ready; });
    g.ready = false;
  }
  if (q->pop_front()) vrt::fail("the queue produced more nodes than were pushed");
  for (auto& t : ts) t.join();
}
// nodes are re-pushed by the consumer's peers: recycle between two queues
void mpsc_recycle() {
  using Q = ex::__intrusive_mpsc_queue<&ANode::next>;
  auto a = std::make_unique<Q>();
  auto b = std::make_unique<Q>();
  int n = vrt::range(1, 3), rounds = vrt::range(1, 3);
  std::vector<std::unique_ptr<ANode>> nodes;
  std::thread t([&] { int fwd = 0; while (fwd < n * rounds) { if (ANode* x = a->pop_front()) { x->data++; b->push_back(x); fwd++; } else std::this_thread::yield(); } });
  for (int i = 0; i < n; i++) { nodes.push_back(std::make_unique<ANode>()); nodes[i]->seq = i; a->push_back(nodes[i].get()); }
  for (int i = 0; i < n * rounds;) {
    if (ANode* x = b->pop_front()) {
      if (x->seq != i % n) vrt::fail("recycled node %d handed out when %d was next", x->seq, i % n);
      if (x->data != i / n + 1) vrt::fail("recycled node %d: round data %d, expected %d", x->seq, x->data, i / n + 1);
      vrt::observed();
      if (i / n + 1 < rounds) a->push_back(x);
      i++;
    } else std::this_thread::yield();
  }
  t.join();
}
void runq(int P, bool prefill) {   // run_loop's queue: push reports emptiness, wait_for_item sleeps, pop_all takes everything in order
  using Q = ex::__atomic_intrusive_queue<&PNode::next>;
  auto q = std::make_unique<Q>();
  Mon m; int k[8], total = 0, got = 0;
  vrt::cell<int> falses, trues, batches;
  for (int p = 0; p < P; p++) total += k[p] = vrt::range(1, 4);
  auto push = [&](int p, int i) { if (q->push(mk<PNode>(m, p, i))) { trues.inc(); vrt::cover("push reported empty"); } else falses.inc(); };
  if (prefill) { push(7, 0); push(7, 1); total += 2; }
  std::vector<std::thread> ts;
  for (int p = 0; p < P; p++) ts.emplace_back([&, p] { for (int i = 0; i < k[p]; i++) push(p, i); });
  while (got < total) {
    q->wait_for_item();
    auto l = q->pop_all();
    int c = 0;
    while (!l.empty()) { consume(m, l.pop_front()); got++; c++; }
    if (c) batches.inc();
    if (!c) vrt::fail("wait_for_item returned although nothing was queued");
  }
  for (auto& t : ts) t.join();
  if (trues.get() != batches.get()) vrt::fail("%d non-empty batches taken but push reported an empty queue %d times", batches.get(), trues.get());
  if (!q->pop_all().empty()) vrt::fail("the queue produced more nodes than were pushed");
}
void remoteq(int P) {              // the pool's remote queues: push_front / try_push_front / prepend / pop_all / pop_all_reversed
  using Q = exec::__atomic_intrusive_queue<&PNode::next>;
  auto q = std::make_unique<Q>();
  Mon m; int k[8], total = 0, got = 0;
  int mode[8];
  for (int p = 0; p < P; p++) total += k[p] = vrt::range(1, 4), mode[p] = vrt::choose(3);
  std::vector<std::thread> ts;
  vrt::cell<int> pushed_done;
  for (int p = 0; p < P; p++) ts.emplace_back([&, p] {
    if (mode[p] == 2) {            // one chain, newest first
      ex::__intrusive_queue<&PNode::next> l;
      std::vector<PNode*> v;
      for (int i = 0; i < k[p]; i++) v.push_back(mk<PNode>(m, p, i));
      for (auto it = v.rbegin(); it != v.rend(); ++it) l.push_back(*it);
      q->prepend(std::move(l));
    } else for (int i = 0; i < k[p]; i++) {
      PNode* n = mk<PNode>(m, p, i);
      if (mode[p]) { for (;;) { auto r = q->try_push_front(n); if (r.__success) break; vrt::cover("try_push_front contended"); std::this_thread::yield(); } }
      else q->push_front(n);
    }
    pushed_done.inc();
  });
  int spins = 0;
  while (got < total) {
    if (q->empty()) { std::this_thread::yield(); if (++spins > 4000) vrt::fail("empty() stays true although nodes are queued"); continue; }
    if (vrt::chance(70)) {
      ex::__intrusive_queue<&PNode::next> l;
      l.append(q->pop_all_reversed());
      if (vrt::chance(30)) l.append(q->pop_all_reversed());   // as the pool's workers do with what is pending
      while (!l.empty()) { consume(m, l.pop_front()); got++; }
    } else {                       // newest first: reverse by hand, check the tail link too
      auto l = q->pop_all();
      std::vector<PNode*> v;
      PNode* back = l.back();
      while (!l.empty()) v.push_back(l.pop_front());
      if (!v.empty() && v.back() != back) vrt::fail("pop_all: back() is not the last node");
      for (auto it = v.rbegin(); it != v.rend(); ++it) { consume(m, *it); got++; }
    }
  }
  for (auto& t : ts) t.join();
  if (!q->empty()) vrt::fail("empty() false after everything was taken");
}
}  // namespace

VRT_SCENARIO_F(c13_mpsc1, 0, 10) { mpsc(1); }
VRT_SCENARIO_F(c13_mpsc2, 0, 30) { mpsc(2); }
VRT_SCENARIO_F(c13_mpsc3, 0, 20) { mpsc(3); }
VRT_SCENARIO_F(c13_mpsc_recycle, 0, 10) { mpsc_recycle(); }
VRT_SCENARIO_F(c13_runq1, 0, 10) { runq(1, vrt::chance(50)); }
VRT_SCENARIO_F(c13_runq3, 0, 20) { runq(vrt::range(2, 3), vrt::chance(30)); }
VRT_SCENARIO_F(c13_remote2, 0, 10) { remoteq(2); }
VRT_SCENARIO_F(c13_remote3, 0, 10) { remoteq(3); }
// the non-concurrent list the queues hand over, against a vector
VRT_SCENARIO_F(c13_list, vrt::F_SEQ, 10) {
  using L = ex::__intrusive_queue<&PNode::next>;
  PNode n[24]; bool used[24] = {};
  L a; std::vector<PNode*> ra;
  auto fresh = [&]() -> PNode* { for (int i = 0; i < 24; i++) if (!used[i]) { used[i] = true; n[i].seq = i; return &n[i]; } return nullptr; };
  int k = vrt::range(1, 30);
  for (int i = 0; i < k; i++) {
    PNode* x;
    switch (vrt::choose(6)) {
      case 0: if ((x = fresh())) { a.push_back(x); ra.push_back(x); } break;
      case 1: if ((x = fresh())) { a.push_front(x); ra.insert(ra.begin(), x); } break;
      case 2: if (!ra.empty()) { x = a.pop_front(); if (x != ra[0]) vrt::fail("pop_front"); ra.erase(ra.begin()); used[x - n] = false; } break;
      case 3: case 4: { L b; std::vector<PNode*> rb; int j = vrt::choose(3); while (j-- && (x = fresh())) { b.push_back(x); rb.push_back(x); }
        if (vrt::chance(50)) { a.append(std::move(b)); ra.insert(ra.end(), rb.begin(), rb.end()); } else { a.prepend(std::move(b)); ra.insert(ra.begin(), rb.begin(), rb.end()); } break; }
      case 5: { L c(std::move(a)); if (!a.empty()) vrt::fail("moved-from list not empty"); a = std::move(c); break; }
    }
    if (a.empty() != ra.empty()) vrt::fail("empty() is %d with %zu elements", a.empty(), ra.size());
    if (a.front() != (ra.empty() ? nullptr : ra.front()) || a.back() != (ra.empty() ? nullptr : ra.back())) vrt::fail("front/back wrong");
    size_t c = 0; for (auto it = a.begin(); it != a.end(); ++it, ++c) if (c >= ra.size() || *it != ra[c]) vrt::fail("iteration differs at %zu", c);
    if (c != ra.size()) vrt::fail("iteration saw %zu of %zu", c, ra.size());
    vrt::observed();
  }
  while (!a.empty()) (void)a.pop_front();
}

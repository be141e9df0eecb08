// The engine: generation, execution and judging of trees.
#include "poly.hpp"
#include <cstring>
namespace poly {
namespace {
struct Gen {
  Tree& t; Profile const& p; int next_leaf = 0, budget;
  std::vector<Kind> ks;
  Gen(Tree& t_, Profile const& p_) : t(t_), p(p_), budget(p_.budget) { for (auto* v : {&kinds_a(), &kinds_b(), &kinds_c(), &kinds_d()}) for (auto const& k : *v) ks.push_back(k); }
  int weight(Kind const& k, int depth) {
    if (k.flags & p.deny) return 0;
    if (k.arity && k.arity >= budget) return 0;
    if (k.arity && depth >= p.depth) return 0;
    if (!k.arity && depth == 0) return 0;
    int w = k.weight;
    if (k.flags & F_CONC) w = w * p.conc_weight / 100;
    if (k.flags & F_CTX) w = w * p.ctx_weight / 100;
    if (!k.arity) w = (k.flags & F_LEAF) ? (next_leaf < t.sc.n() ? w * (depth < 2 ? 1 : 3) : 0) : w * (depth < 2 ? 1 : 2);
    return w;
  }
  Node* gen(Node* up, int slot, int depth, bool stoppable) {
    long sum = 0; for (auto& k : ks) sum += weight(k, depth);
    Kind const* pick = nullptr;
    if (depth == 0 && p.only_root) { for (auto& k : ks) if (!std::strcmp(k.name, p.only_root)) pick = &k; }
    else { long r = vrt::choose((uint32_t)sum); for (auto& k : ks) { r -= weight(k, depth); if (r < 0) { pick = &k; break; } } }
    budget--;
    auto n = pick->mk(); t.nodes.emplace_back(n);
    if ((int)vrt::choose(100) < p.lvalues) n->lvalue = vrt::range(1, 2);
    n->t = &t; n->up = up; n->slot = slot; n->id = (int)t.nodes.size() - 1; n->stoppable = stoppable; n->val = 500 + n->id * 10;
    if (pick->flags & F_CTX) { n->c = &t.ctx[vrt::choose(3)]; }
    if (pick->flags & F_LEAF) {
      n->leaf = t.sc.lv[next_leaf++].get();
      if (p.never && stoppable && t.sc.stop_planned() && t.sc.stop_mode != Scene::IN_START && vrt::chance(35)) { n->leaf->where = NEVER; if (n->leaf->onstop == IGNORE) n->leaf->onstop = INCB; }
    }
    n->setup();
    for (int i = 0; i < pick->arity; i++) n->kid.push_back(gen(n, i, depth + 1, stoppable && !(pick->flags & F_UNSTOP)));
    return n;
  }
};
void print(Node* n, std::string& s) { s += n->name(); if (!n->kid.empty()) { s += "("; for (size_t i = 0; i < n->kid.size(); i++) { if (i) s += ","; print(n->kid[i], s); } s += ")"; } }
}  // namespace
VRT_NOINSTR void dump(Tree& t) {
  vrt::quiet q; std::string s; print(t.root, s); fprintf(stderr, "FAILED tree %s\n", s.c_str());
  for (auto& c : t.ctx) fprintf(stderr, "  ctx %d kind %d tid %d fail_at %d how %d\n", c.id, c.kind, c.tid.get(), c.fail_at, c.fail_how);
  for (auto& up : t.acts) { Act& a = *up; fprintf(stderr, "  act %d node %d %s ctx %d parent %d start %d(T%d) done %d(T%d) dead %d stop %d/%d %s code %d eptr %d n %d: %d %d", a.index, a.node->id, a.node->name(), a.node->c ? a.node->c->id : -1, a.parent ? a.parent->index : -1, a.t_start, a.tid_start, a.t_done, a.tid_done, a.t_dead, a.stop_at_start, a.stop_at_done, chname(a.res.ch), a.res.code, a.res.eptr, a.res.n, a.res.v[0], a.res.v[1]);
    for (auto& c : a.calls) fprintf(stderr, " call[slot %d t %d-%d T%d ret %d threw %d]", c.slot, c.t, c.t_end, c.tid, c.ret, c.threw); fputs("\n", stderr); }
}
VRT_NOINSTR void judge(Tree& t) {
  vrt::quiet q;
  for (auto& up : t.acts) {
    Act& a = *up;
    if (a.t_dead < 0) wrong(a, "its operation state was never destroyed");
    if (a.t_start < 0) { if (!a.calls.empty()) wrong(a, "it called a function without having been started"); continue; }
    if (a.t_done < 0) wrong(a, "it was started and never completed");
    for (Act* k : a.kids) if (k->t_start >= 0) {
      if (k->t_start < a.t_start) wrong(a, "a child was started before it was");
      if (k->t_done > a.t_done) wrong(a, "it completed before its child");
      a.node->env_rule(a, *k);
    }
    for (auto& c : a.calls) if (c.t < a.t_start || c.t > a.t_done || c.t_end < 0) wrong(a, "a function was called outside its life");
    a.node->judge(a);
    if (Ctx* c = a.node->claim[a.res.ch]) if (Ctx* s = a.env.sch.c; c->kind != C_INLINE && s && (s->kind != C_INLINE ? a.tid_start == s->tid.get() : s != c) && a.tid_done != c->tid.get() && !((std::strncmp(a.node->name(), "let", 3) == 0 || std::strstr(a.node->name(), "upon_")) && KNOWN_FINDING("C24-forwarded-attributes"))) wrong(a, "its attributes name a completion scheduler and it completes elsewhere");
  }
}
void run(Profile const& p) {
  Tree t(p.leaves); Tree::cur = &t; G.moves_throw = false;
  t.main_tid.set(vrt::tid());
  for (int i = 0; i < p.leaves; i++) {
    Leaf& l = t.sc.L(i);
    l.how = (int)vrt::choose(100) < p.value_weight ? VALUE : vrt::chance(50) ? ERROR : STOPPED;
    l.where = (int)vrt::choose(100) < p.inline_weight ? INLINE : EXTERN;
  }
  if (p.mode >= 0) t.sc.rec.mode = (Mode)p.mode;
  if (!p.stops) t.sc.stop_mode = Scene::NO_STOP;
  if (p.stop_always && t.sc.stop_mode == Scene::NO_STOP) { uint32_t m = vrt::choose(10); t.sc.stop_mode = m < 1 ? Scene::BEFORE : m < 7 ? Scene::THREAD : m < 8 ? Scene::AFTER : Scene::IN_START; }
  for (int i = 0; i < 3; i++) { Ctx& c = t.ctx[i]; c.id = i; c.tree = &t; uint32_t k = vrt::choose(10); c.kind = i == 0 || k < 5 ? C_THREAD : k < 8 ? C_LOOP : C_INLINE; c.code = 9000 + i; if (p.sched_fail && vrt::chance(10)) { c.fail_at = vrt::choose(2); c.fail_how = vrt::chance(50) ? ERROR : STOPPED; } }
  if ((int)vrt::choose(100) < p.boom) { t.boom = 7777; t.moves = p.moves; }
  Gen g(t, p); t.root = g.gen(nullptr, 0, 0, true);
  bool conc = false, ctx = false; for (auto& n : t.nodes) { if (n->flags() & F_CONC) conc = true; if (n->flags() & F_CTX) ctx = true; }
  { vrt::quiet q; std::string s; print(t.root, s); if (getenv("POLY_PRINT")) fprintf(stderr, "tree: %s\n", s.c_str()); for (auto& n : t.nodes) vrt::cover(n->name()); }
  if (ctx) for (auto& c : t.ctx) c.open(); else t.ctx[0].open();
  bool threw = false;
  { struct moves_on { bool on; moves_on(bool b) { if (b) G.moves_throw = true; } } mo(t.moves);
    int when = vrt::choose(3);
    try {
      if (t.boom && when == 0) arm(vrt::range(1, 12), t.boom);
      mon::connect(t.sc.rec, PS(t.root), PEnv{t.sc.src->get_token(), PSch{&t.ctx[0]}, 71, 72});
      G.armed.set(0);
      if (t.boom && when != 0) arm(vrt::range(1, when == 1 ? 6 : 16), t.boom);
    } catch (Boom const& b) { threw = true; if (b.code != t.boom) vrt::fail("connect threw something else than what was injected"); vrt::cover("connect threw"); }
  }
  if (threw) { G.armed.set(0); G.moves_throw = false; for (auto& a : t.acts) if (a->t_start >= 0) vrt::fail("connect threw after starting an operation"); }
  else if ((int)vrt::choose(100) < p.unstarted) { G.armed.set(0); G.moves_throw = false; t.sc.rec.destroy(); for (auto& a : t.acts) if (a->t_start >= 0) vrt::fail("an operation was started although the outermost one never was"); vrt::cover("connected, never started"); threw = true; }
  else { t.sc.drive(); G.armed.set(0); G.moves_throw = false; }
  for (auto& c : t.ctx) if (c.opened) c.close();
  for (auto& c : t.ctx) if (c.schedules.get() != c.completes.get()) vrt::fail("a schedule operation never completed");
  if (threw) { t.sc.close(); for (auto& a : t.acts) if (a->t_dead < 0) vrt::fail("an operation state was never destroyed"); return; }
  judge(t);
  bool lost = false; for (auto& c : t.ctx) if (c.fail_at >= 0 && c.schedules.get() > c.fail_at) lost = true;   // a failing transfer replaces what it carries
  if (G.thrown.get() && !t.threw_in_call && !t.origins && !conc && !lost && !t.masked && !t.sc.stop_planned()) vrt::fail("an exception was thrown by a copy, a move or a connect and no operation reported it; the outermost one completed with %s(%d)", chname(t.sc.rec.ch.get()), t.sc.rec.code.get());
  vrt::outcome("%s", chname(t.sc.rec.ch.get())); vrt::observed((int)t.acts.size());
  bool stopq = t.sc.stop_begun.get(); (void)stopq;
}
}  // namespace poly

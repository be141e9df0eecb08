// Random sender trees over the library's adaptors.
//
// Every node of a tree is a library adaptor over type-erased children (the erasure is ours, not the
// library's), so trees of any shape exist at run time although each adaptor is instantiated once.
// At every edge of the tree a monitor records the life of each operation: connected, started (with the
// environment it saw and the thread it ran on), completed (channel, data, thread, time), destroyed; and
// every user function logs its calls.  After the execution each operation's record is judged by the
// specification of its adaptor, given what its children did.  The specification is local and says
// nothing about schedules, so it holds for every interleaving.
#pragma once
#include "mon.hpp"

namespace poly {
using namespace mon;
namespace ex = STDEXEC;
struct Node; struct Act; struct Tree;

// ---- execution contexts -----------------------------------------------------------------------
enum CtxKind { C_THREAD, C_LOOP, C_INLINE };
struct Ctx {
  int id = 0; CtxKind kind = C_THREAD; Tree* tree = nullptr;
  vrt::cell<int> tid, schedules, completes;
  int fail_at = -1, fail_how = ERROR, code = 0;    // the fail_at'th schedule operation fails
  // C_THREAD
  struct Item { Item* next = nullptr; void (*run)(Item*) noexcept = nullptr; };
  std::atomic<Item*> inbox{nullptr}; Item bye; std::thread th;
  std::unique_ptr<ex::run_loop> loop;
  bool opened = false;
  void give(Item* s) {
    Item* h = inbox.load(std::memory_order_relaxed);
    do { s->next = h; } while (!inbox.compare_exchange_weak(h, s, std::memory_order_release, std::memory_order_relaxed));
    inbox.notify_one();
  }
  void run() {
    tid.set(vrt::tid());
    if (kind == C_LOOP) { loop->run(); return; }
    for (;;) {
      Item* s = inbox.exchange(nullptr, std::memory_order_acquire);
      if (!s) { inbox.wait(nullptr, std::memory_order_relaxed); continue; }
      Item* r = nullptr; while (s) { Item* n = s->next; s->next = r; r = s; s = n; }
      bool stop = false;
      while (r) { Item* n = r->next; if (r == &bye) stop = true; else r->run(r); r = n; }
      if (stop) return;
    }
  }
  void open() { opened = true; tid.set(-1); if (kind == C_LOOP) loop = std::make_unique<ex::run_loop>(); if (kind != C_INLINE) th = std::thread([this] { run(); }); }
  void close() { if (th.joinable()) { if (kind == C_LOOP) loop->finish(); else give(&bye); th.join(); } loop.reset(); }
};
struct PEnv;
struct PSch;
// the receiver interface between two levels
struct AnyRcv {
  virtual void value(int n, const int* v) noexcept = 0;
  virtual void error(int code, bool eptr) noexcept = 0;
  virtual void stopped() noexcept = 0;
  virtual PEnv env() noexcept = 0;
};
struct SchSnd;
struct PSch {
  using scheduler_concept = ex::scheduler_tag;
  Ctx* c = nullptr;
  inline SchSnd schedule() const noexcept;
  bool operator==(PSch const&) const noexcept = default;
};
struct q1_t { template <class E, class Q = q1_t> requires requires(E const& e, Q q) { e.query(q); } int operator()(E const& e) const noexcept { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct q2_t { template <class E, class Q = q2_t> requires requires(E const& e, Q q) { e.query(q); } int operator()(E const& e) const noexcept { return e.query(*this); } };
inline constexpr q1_t q1{}; inline constexpr q2_t q2{};
struct PEnv {
  ex::inplace_stop_token tok; PSch sch; int v1 = 0, v2 = 0;
  [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return tok; }
  [[nodiscard]] auto query(ex::get_scheduler_t) const noexcept { return sch; }
  [[nodiscard]] auto query(ex::get_start_scheduler_t) const noexcept { return sch; }
  [[nodiscard]] int query(q1_t) const noexcept { return v1; }
  [[nodiscard]] int query(q2_t) const noexcept { return v2; }
};
template <class E> PEnv env_of(E const& e) noexcept {
  PEnv r;
  auto t = ex::get_stop_token(e);
  if constexpr (std::is_same_v<decltype(t), ex::inplace_stop_token>) r.tok = t;
  if constexpr (requires { { ex::get_start_scheduler(e) } -> std::same_as<PSch>; }) r.sch = ex::get_start_scheduler(e);
  else if constexpr (requires { ex::get_start_scheduler(e).c; }) r.sch = PSch{ex::get_start_scheduler(e).c};
  if constexpr (requires { q1(e); }) r.v1 = q1(e);
  if constexpr (requires { q2(e); }) r.v2 = q2(e);
  return r;
}
// ---- normalised completions -------------------------------------------------------------------
struct Res { int ch = NONE, code = 0; bool eptr = false; int n = 0; int v[4] = {0, 0, 0, 0}; };
inline bool same(Res const& a, Res const& b) {
  if (a.ch != b.ch) return false;
  if (a.ch == ERROR) return a.code == b.code && a.eptr == b.eptr;
  if (a.ch != VALUE) return true;
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; i++) if (a.v[i] != b.v[i]) return false;
  return true;
}
inline Res rval(std::initializer_list<int> l) { Res r; r.ch = VALUE; for (int x : l) if (r.n < 4) r.v[r.n++] = x; return r; }
inline Res rerr(int c, bool eptr) { Res r; r.ch = ERROR; r.code = c; r.eptr = eptr; return r; }
inline Res rstop() { Res r; r.ch = STOPPED; return r; }
struct Flat {                                    // reads (and, if it is an rvalue, consumes) a completion's data
  int n = 0; int v[8];
  void put(int x) { if (n < 8) v[n] = x; n++; }
  enum { T_VALUE = -1001, T_ERROR = -1002, T_STOPPED = -1003, T_NULLOPT = -1004 };
  template <class T> void add(T&& t) {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, ex::set_value_t>) put(T_VALUE);
    else if constexpr (std::is_same_v<D, ex::set_error_t>) put(T_ERROR);
    else if constexpr (std::is_same_v<D, ex::set_stopped_t>) put(T_STOPPED);
    else if constexpr (std::is_same_v<D, std::exception_ptr>) { put(1); put(code_of(t)); }
    else if constexpr (std::is_same_v<D, Err>) { put(0); put(t.code()); }
    else if constexpr (requires { std::variant_size<D>::value; }) std::visit([this](auto&& x) { add((decltype(x)&&)x); }, (T&&)t);
    else if constexpr (requires { t.has_value(); *t; }) { if (t.has_value()) add(*(T&&)t); else put(T_NULLOPT); }
    else if constexpr (requires { std::tuple_size<D>::value; }) std::apply([this](auto&&... x) { (add((decltype(x)&&)x), ...); }, (T&&)t);
    else { put(num(t)); if constexpr (!std::is_const_v<std::remove_reference_t<T>> && !std::is_lvalue_reference_v<T>) consume(t); }
  }
  // at most two values cross an edge; the rest is folded into the second
  void fold() { if (n > 2) { int h = v[1]; for (int i = 2; i < n && i < 8; i++) h = 31 * (h % 10007) + v[i]; v[1] = h; n = 2; } }
};
inline void fold(Res& r, const int* v, int n) { Flat f; for (int i = 0; i < n; i++) f.put(v[i]); f.fold(); r.ch = VALUE; r.n = f.n; for (int i = 0; i < f.n; i++) r.v[i] = f.v[i]; }
// ---- the log ----------------------------------------------------------------------------------
struct Call { Node* node; int slot, t, t_end, tid, n, v[4]; int threw; int ret; };
struct Act {
  Node* node; Act* parent; int index;
  int t_start = -1, t_done = -1, t_dead = -1, tid_start = -1, tid_done = -1, stop_at_start = 0, stop_at_done = 0;
  PEnv env; Res res; std::vector<Act*> kids; std::vector<Call> calls;
  bool origin = false;
};
struct Tree {
  Scene sc; Ctx ctx[3]; std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<Act>> acts;
  Node* root = nullptr; int boom = 0, moves = 0, origins = 0; bool masked = false, threw_in_call = false, threw_in_connect = false; int connect_phase = 0;
  vrt::cell<int> main_tid;
  explicit Tree(int leaves) : sc(leaves) {}
  static inline Tree* cur = nullptr;
};
enum Flags { F_LEAF = 1, F_EATS_ERROR = 2, F_EATS_STOP = 4, F_CONC = 8, F_CTX = 16, F_UNSTOP = 32, F_SPLITTER = 64, F_NOFORWARD = 128 };
struct Node {
  Tree* t = nullptr; Node* up = nullptr; int id = 0, slot = 0, val = 0; Ctx* c = nullptr; Leaf* leaf = nullptr; bool stoppable = true; int lvalue = 0;
  std::vector<Node*> kid; Act* last = nullptr;   // its most recent activation
  Ctx* claim[4] = {nullptr, nullptr, nullptr, nullptr};   // the contexts its completion scheduler attributes name, per channel
  Val* held = nullptr; int held_val = 0;         // a let argument that must stay alive while the second sender runs
  virtual ~Node() = default;
  virtual const char* name() = 0;
  virtual int arity() { return 0; }
  virtual int flags() { return 0; }
  virtual void setup() {}
  virtual OpBase* make(AnyRcv*) = 0;
  virtual void judge(Act& a) = 0;
  virtual void env_rule(Act& a, Act& k) ;        // the environment a child operation must see
  virtual void kid_done(int) {}
};
void dump(Tree& t);
[[noreturn]] inline void wrong(Act& a, const char* why) {
  if (getenv("POLY_PRINT")) dump(*a.node->t);
  vrt::fail("node %d (%s): %s; it completed with %s(%d%s; %d: %d %d)", a.node->id, a.node->name(), why, chname(a.res.ch), a.res.code, a.res.ch == ERROR ? a.res.eptr ? ", exception_ptr" : ", Err" : "", a.res.n, a.res.v[0], a.res.v[1]);
}
inline void Node::env_rule(Act& a, Act& k) {
  if (k.env.v1 != a.env.v1) wrong(a, "its child sees another value for a forwarding query than its receiver supplies");
  if (!(k.env.tok == a.env.tok)) wrong(a, "its child sees another stop token than its receiver supplies");
  if (!(k.env.sch == a.env.sch)) wrong(a, "its child sees another scheduler than its receiver supplies");
}
// ---- the sender that stands for a subtree ------------------------------------------------------
template <class Sigs> struct Bridge {            // receiver handed to the library adaptor of a node
  using receiver_concept = ex::receiver_tag;
  AnyRcv* up; Node* node; unsigned magic = Val::LIVE;
  Bridge(AnyRcv* u, Node* n) noexcept : up(u), node(n) { G.rcvrs.inc(); }
  Bridge(Bridge&& o) noexcept : up(o.up), node(o.node) { o.chk(); G.rcvrs.inc(); }
  ~Bridge() { chk(); magic = Val::DEAD; G.rcvrs.inc(-1); }
  void chk() const noexcept { if (magic != Val::LIVE) vrt::fail("node %d (%s): a receiver is used or destroyed after its destruction", node->id, node->name()); }
  template <class Tag, class... A> void truthful() noexcept {
    if constexpr (!advertised<Sigs>::template has<Tag, A...>) vrt::fail("node %d (%s): a completion that its sender does not advertise: %s; advertised: %s", node->id, node->name(), type_names<Tag, A&&...>(), type_names<Sigs>());
  }
  template <class... A> void set_value(A&&... a) noexcept { chk(); truthful<ex::set_value_t, A...>(); Flat f; (f.add((A&&)a), ...); f.fold(); up->value(f.n, f.v); }
  template <class E> void set_error(E&& e) noexcept { chk(); truthful<ex::set_error_t, E>(); constexpr bool ep = std::is_same_v<std::decay_t<E>, std::exception_ptr>; int c = code_of(e); up->error(c, ep); }
  void set_stopped() noexcept { chk(); truthful<ex::set_stopped_t>(); up->stopped(); }
  PEnv get_env() const noexcept { chk(); return up->env(); }
};
template <class S> struct NodeOp : OpBase {
  using Sigs = ex::completion_signatures_of_t<S, PEnv>;
  ex::connect_result_t<S, Bridge<Sigs>> op;
  NodeOp(S&& s, AnyRcv* up, Node* n) : op(ex::connect((S&&)s, Bridge<Sigs>(up, n))) {}
  void start() noexcept override { ex::start(op); }
};
template <class S> struct NodeOpL : OpBase {      // the same through an lvalue: the sender is left as it was
  using Sigs = ex::completion_signatures_of_t<S const&, PEnv>;
  ex::connect_result_t<S const&, Bridge<Sigs>> op;
  NodeOpL(S const& s, AnyRcv* up, Node* n) : op(ex::connect(s, Bridge<Sigs>(up, n))) {}
  void start() noexcept override { ex::start(op); }
};
template <class Tag, class S> void claim(Node* n, int ch, S const& s, PEnv const& e) {
  if constexpr (requires { ex::get_completion_scheduler<Tag>(ex::get_env(s), e); }) {
    auto sch = ex::get_completion_scheduler<Tag>(ex::get_env(s), e);
    if constexpr (requires { { sch.c } -> std::same_as<Ctx*&>; }) { n->claim[ch] = sch.c; vrt::cover("completion scheduler known"); }
  }
}
template <class S> OpBase* mkop(Node* n, AnyRcv* up, S&& s) {
  using D = std::decay_t<S>;
  { PEnv e = up->env(); claim<ex::set_value_t>(n, VALUE, s, e); claim<ex::set_error_t>(n, ERROR, s, e); claim<ex::set_stopped_t>(n, STOPPED, s, e); }
  if constexpr (std::is_copy_constructible_v<D>) if (n->lvalue) { D d((S&&)s); if (n->lvalue > 1) { D e(d); return new NodeOpL<D>(e, up, n); } return new NodeOpL<D>(d, up, n); }
  return new NodeOp<D>(D((S&&)s), up, n);
}

VRT_NOINSTR inline Act* new_act(Node* n) {
  vrt::quiet q; Tree* t = n->t;
  t->acts.push_back(std::make_unique<Act>()); Act* a = t->acts.back().get();
  a->node = n; a->index = (int)t->acts.size() - 1; a->parent = n->up ? n->up->last : nullptr; n->last = a;
  if (a->parent) a->parent->kids.push_back(a);
  return a;
}
// tokens of other types are bridged into an inplace source of the edge's own
// (the request may complete and destroy the operation, so it keeps the source alive itself)
struct ReqStop { std::shared_ptr<ex::inplace_stop_source> s; void operator()() const noexcept { auto k = s; k->request_stop(); } };
template <class Tok, bool = std::is_same_v<Tok, ex::inplace_stop_token> || ex::unstoppable_token<Tok>> struct TokBridge { void on(PEnv&, Tok const&) noexcept {} void fix(PEnv&) noexcept {} void off() noexcept {} };
template <class Tok> struct TokBridge<Tok, false> {
  std::shared_ptr<ex::inplace_stop_source> src; std::optional<ex::stop_callback_for_t<Tok, ReqStop>> cb;
  TokBridge() { vrt::quiet q; src = std::make_shared<ex::inplace_stop_source>(); }
  void on(PEnv&, Tok t) noexcept { cb.emplace(std::move(t), ReqStop{src}); }
  void fix(PEnv& e) noexcept { e.tok = src->get_token(); }
  void off() noexcept { cb.reset(); }
};
template <class R> struct POp : AnyRcv {
  using operation_state_concept = ex::operation_state_tag;
  R r; Node* node; Act* a; OpBase* inner; TokBridge<ex::stop_token_of_t<ex::env_of_t<R>>> tb;
  explicit POp(Node* n, R&& r_) : r((R&&)r_), node(n), a(nullptr), inner(nullptr) {
    if (n->t->boom && G.armed.get() > 0) throw_point();
    a = new_act(n);
    try { inner = n->make(this); } catch (...) { a->t_dead = G.clock.inc(); throw; }
  }
  POp(POp&&) = delete;
  ~POp() {
    if (a->t_start >= 0 && a->t_done < 0) vrt::fail("node %d (%s): its operation is destroyed while it is running", node->id, node->name());
    delete std::exchange(inner, nullptr);
    a->t_dead = G.clock.inc();
  }
  void start() & noexcept {
    if (a->t_start >= 0) vrt::fail("node %d (%s): started twice", node->id, node->name());
    { PEnv e = env_of(ex::get_env(r)); tb.fix(e); tb.on(e, ex::get_stop_token(ex::get_env(r))); a->env = e; a->tid_start = vrt::tid(); a->stop_at_start = node->t->sc.stop_begun.get(); a->t_start = G.clock.inc(); }
    inner->start();
  }
  VRT_NOINSTR void note(Res const& x) {
    if (a->t_start < 0) vrt::fail("node %d (%s): completes with %s without having been started", node->id, node->name(), chname(x.ch));
    if (a->t_done >= 0) vrt::fail("node %d (%s): completes twice: first %s, now %s", node->id, node->name(), chname(a->res.ch), chname(x.ch));
    a->res = x; a->tid_done = vrt::tid(); a->t_done = G.clock.inc();
    vrt::log(101, (uint64_t)node->id, (uint64_t)x.ch, (uint64_t)x.code);
  }
  void done(Res const& x) {
    a->stop_at_done = node->t->sc.stop_begun.get() || a->env.tok.stop_requested(); tb.off();
    note(x); if (node->up) node->up->kid_done(node->slot);
  }
  void value(int n, const int* v) noexcept override {
    Res x; x.ch = VALUE; x.n = n; for (int i = 0; i < n; i++) x.v[i] = v[i];
    done(x);
    struct V { std::optional<Val> v; V(int x, bool on) { if (on) { vrt::quiet q; v.emplace(x); } } };
    V p(n > 0 ? x.v[0] : 0, n > 0), s(n > 1 ? x.v[1] : 0, n > 1);
    if (n == 0) ex::set_value((R&&)r); else if (n == 1) ex::set_value((R&&)r, std::move(*p.v)); else ex::set_value((R&&)r, std::move(*p.v), std::move(*s.v));
  }
  void error(int code, bool eptr) noexcept override {
    done(rerr(code, eptr));
    if (eptr) ex::set_error((R&&)r, std::make_exception_ptr(Boom{code}));
    else { std::optional<Err> e; { vrt::quiet q; e.emplace(code); } ex::set_error((R&&)r, std::move(*e)); }
  }
  void stopped() noexcept override { done(rstop()); ex::set_stopped((R&&)r); }
  PEnv env() noexcept override { PEnv e = env_of(ex::get_env(r)); tb.fix(e); return e; }
};
struct PS : Tracked {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_value_t(Val), ex::set_value_t(Val, Val), ex::set_error_t(std::exception_ptr), ex::set_error_t(Err), ex::set_stopped_t()>;
  Node* n;
  explicit PS(Node* n_) noexcept : n(n_) {}
  PS(PS&&) noexcept = default;
  PS(PS const& o) : Tracked(o), n(o.n) { throw_point(); }
  PS& operator=(PS&&) noexcept = default;
  template <class R> POp<R> connect(R r) && { chk(); return POp<R>(n, (R&&)r); }
  template <class R> POp<R> connect(R r) const& { chk(); return POp<R>(n, (R&&)r); }
};
// ---- scheduling --------------------------------------------------------------------------------
template <class R, bool INF = false> struct SchOp : Ctx::Item, AnyRcv {
  using operation_state_concept = ex::operation_state_tag;
  R r; Ctx* c; OpBase* inner = nullptr; bool started = false, done = false;
  struct LoopRcv {
    using receiver_concept = ex::receiver_tag; SchOp* o;
    void set_value() noexcept { o->finish(VALUE); }
    template <class E> void set_error(E&&) noexcept { vrt::fail("run_loop's schedule completed with an error"); }
    void set_stopped() noexcept { o->finish(STOPPED); }
    auto get_env() const noexcept { return ex::get_env(o->r); }
  };
  SchOp(R&& r_, Ctx* c_) : r((R&&)r_), c(c_) { run = &go; if (!INF) throw_point(); if (c->kind == C_LOOP) inner = new OpOf<decltype(c->loop->get_scheduler().schedule()), LoopRcv>(c->loop->get_scheduler().schedule(), LoopRcv{this}); }
  SchOp(SchOp&&) = delete;
  ~SchOp() { if (started && !done) vrt::fail("a schedule operation is destroyed while it is running"); delete inner; }
  void start() & noexcept {
    started = true; int k = c->schedules.inc() - 1;
    if (!INF && k == c->fail_at) { vrt::cover("scheduling fails"); finish(c->fail_how); return; }
    if (c->kind == C_INLINE) finish(VALUE); else if (c->kind == C_LOOP) inner->start(); else c->give(this);
  }
  static void go(Ctx::Item* i) noexcept { static_cast<SchOp*>(i)->finish(VALUE); }
  void finish(int how) noexcept {
    done = true; c->completes.inc(); int code = c->code;
    if (how == VALUE) { ex::set_value((R&&)r); return; }
    if constexpr (INF) vrt::fail("harness: an infallible scheduler fails");
    else if (how == STOPPED) ex::set_stopped((R&&)r); else ex::set_error((R&&)r, std::make_exception_ptr(Boom{code}));
  }
  void value(int, const int*) noexcept override {} void error(int, bool) noexcept override {} void stopped() noexcept override {} PEnv env() noexcept override { return {}; }
};
struct SchSnd {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  Ctx* c;
  struct Attrs { Ctx* c; PSch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return PSch{c}; } template <class E> PSch query(ex::get_completion_scheduler_t<ex::set_value_t>, E const&) const noexcept { return PSch{c}; } };
  Attrs get_env() const noexcept { return {c}; }
  template <class R> SchOp<R> connect(R r) const { return SchOp<R>((R&&)r, c); }
};
inline SchSnd PSch::schedule() const noexcept { return {c}; }
struct PSchI;                                    // the same contexts through a scheduler that cannot fail
struct SchSndI {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
  Ctx* c;
  struct Attrs { Ctx* c; inline PSchI query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept; template <class E> inline PSchI query(ex::get_completion_scheduler_t<ex::set_value_t>, E const&) const noexcept; };
  Attrs get_env() const noexcept { return {c}; }
  template <class R> SchOp<R, true> connect(R r) const noexcept { return SchOp<R, true>((R&&)r, c); }
};
struct PSchI { using scheduler_concept = ex::scheduler_tag; Ctx* c = nullptr; SchSndI schedule() const noexcept { return {c}; } bool operator==(PSchI const&) const noexcept = default; };
inline PSchI SchSndI::Attrs::query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return PSchI{c}; }
template <class E> inline PSchI SchSndI::Attrs::query(ex::get_completion_scheduler_t<ex::set_value_t>, E const&) const noexcept { return PSchI{c}; }
// ---- user functions ----------------------------------------------------------------------------
inline int mixv(int node, int slot, int n, const int* v) { int h = node * 7 + slot * 3 + n; for (int i = 0; i < n; i++) h = (h * 31 + v[i] % 9973) % 99991; return h < 0 ? -h : h; }
struct calm { int a; calm() : a(G.armed.get()) { G.armed.set(0); } ~calm() { G.armed.set(a); } };
template <class F> auto calmly(F f) { calm k; return f(); }   // builds something of the harness's own without injected exceptions
VRT_NOINSTR inline Call* log_call(Node* n, int slot, int cnt, const int* v) {
  vrt::quiet q; Act* a = n->last;
  if (a->t_start < 0) vrt::fail("node %d (%s): its function is called although it has not been started", n->id, n->name());
  if (a->t_done >= 0) vrt::fail("node %d (%s): its function is called after it has completed", n->id, n->name());
  if (a->calls.capacity() < 64) a->calls.reserve(64);
  Call c{n, slot, G.clock.inc(), -1, vrt::tid(), cnt, {0, 0, 0, 0}, 0, 0}; for (int i = 0; i < cnt && i < 4; i++) c.v[i] = v[i];
  c.ret = mixv(n->id, slot, cnt, v); a->calls.push_back(c); return &a->calls.back();
}
enum Ret { R_VAL, R_VOID, R_KID1, R_BOOL };
template <Ret RET> struct Fn : Tracked {
  Node* n; int slot;
  Fn(Node* n_, int s) noexcept : n(n_), slot(s) {}
  template <class... A> auto operator()(A&&... a) const {
    chk();
    if constexpr (RET == R_KID1) n->held = nullptr;
    if constexpr (RET == R_KID1 && sizeof...(A) >= 1) { auto hold = [&](auto& x, auto&...) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Val>) { n->held = &x; n->held_val = x.get(); } }; hold(a...); }
    Flat f; (f.add(std::as_const(a)), ...); f.fold();
    Call* c = log_call(n, slot, f.n, f.v);
    try { throw_point(); } catch (...) { c->threw = G.thrown.get(); n->t->threw_in_call = true; c->t_end = G.clock.inc(); throw; }
    c->t_end = G.clock.inc();
    if constexpr (RET == R_VAL) return Val(c->ret);
    else if constexpr (RET == R_KID1) return PS(n->kid[1]);
    else if constexpr (RET == R_BOOL) return (c->ret & 3) == 0;
  }
};
// ---- judging -----------------------------------------------------------------------------------
// the activation of kid i under a (at most one may have been started, unless the adaptor repeats it)
inline Act* kid(Act& a, int i) { Act* r = nullptr; for (Act* k : a.kids) if (k->node->slot == i && k->t_start >= 0) { if (r) wrong(a, "it started a child twice"); r = k; } return r; }
inline bool originates(Act& a) {                 // an injected exception surfaced here
  Tree* t = a.node->t;
  if (!(t->boom && G.thrown.get() && a.res.ch == ERROR && a.res.eptr && a.res.code == t->boom)) return false;
  for (Act* k : a.kids) if (k->t_start >= 0 && same(k->res, a.res)) return true;   // it came from a child
  if (!a.origin) { a.origin = true; if (++t->origins > 1) wrong(a, "an exception that was thrown once has surfaced twice"); }
  return true;
}
inline bool sched_failed(Act& a, Ctx* c) {       // allowed alternatives when a schedule operation fails
  if (c->kind == C_LOOP && a.res.ch == STOPPED && a.stop_at_done) return true;
  if (c->fail_at < 0 || c->schedules.get() <= c->fail_at) return false;
  return c->fail_how == STOPPED ? a.res.ch == STOPPED : a.res.ch == ERROR && a.res.eptr && a.res.code == c->code;
}
inline void must(Act& a, Res const& want, const char* why) { if (!same(a.res, want) && !originates(a)) wrong(a, why); }
inline void on_ctx(Act& a, Ctx* c, const char* why) { if (c->kind != C_INLINE && a.tid_done != c->tid.get()) wrong(a, why); }
inline void no_calls(Act& a) { if (!a.calls.empty()) wrong(a, "it called its function although the child completed on another channel"); }
inline Call* one_call(Act& a, Res const& with, const char* why) {
  if (a.calls.size() > 1) wrong(a, "it called its function more than once");
  if (a.calls.empty()) { if (originates(a)) return nullptr; wrong(a, why); }
  Call& c = a.calls[0];
  if (with.ch == ERROR) { if (c.n != 2 || c.v[0] != (with.eptr ? 1 : 0) || c.v[1] != with.code) wrong(a, "it called its function with another error than the one delivered"); }
  else { Flat f; for (int i = 0; i < with.n; i++) f.put(with.v[i]); f.fold(); if (c.n != f.n) wrong(a, "it called its function with another number of arguments"); for (int i = 0; i < f.n; i++) if (c.v[i] != f.v[i]) wrong(a, "it called its function with other arguments than the values delivered"); }
  return &c;
}
inline bool call_threw(Act& a, Call* c) { if (c && c->threw) { if (!same(a.res, rerr(c->threw, true))) wrong(a, "its function threw and it did not complete with that exception"); return true; } return false; }
void judge(Tree& t);
// ---- kinds -------------------------------------------------------------------------------------
struct Kind { const char* name; int arity, flags, weight; Node* (*mk)(); };
std::vector<Kind> const& kinds_a(); std::vector<Kind> const& kinds_b(); std::vector<Kind> const& kinds_c(); std::vector<Kind> const& kinds_d();
struct Profile {
  int leaves = 4, depth = 4, budget = 9;
  int deny = 0;                                  // flags of kinds not to use
  int conc_weight = 100, ctx_weight = 100;       // percentages
  int boom = 0;                                  // percentage of executions with an injected exception
  bool moves = false;                            // ... thrown by moves too
  bool stops = true, sched_fail = true, never = true;
  int value_weight = 65, inline_weight = 35;
  const char* only_root = nullptr;
  int unstarted = 4, lvalues = 25;               // percentages
  bool stop_always = false;
  int mode = -1;                                 // how the receiver disposes of the operation (-1: any)
};
void run(Profile const& p);
}  // namespace poly

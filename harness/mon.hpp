// Monitors shared by the harnesses: tracked values, the monitored receiver, heap-allocated operation
// states that are released at the earliest legal moment, and a scriptable leaf sender.
#pragma once
#include "vrt.hpp"
#include <cstring>
#include <stdexec/execution.hpp>
#include <atomic>
#include <exception>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace mon {
namespace ex = STDEXEC;

struct Boom { int code; };                       // what injected failures throw
struct Globals {
  vrt::cell<int> vals, fns, rcvrs, armed, arm_code, thrown, calls, clock;
  struct flag : vrt::cell<int> { VRT_NOINSTR operator bool() const { return get() != 0; } VRT_NOINSTR void operator=(bool b) { set(b); } };
  flag moves_throw; vrt::cell<int> arm_tid;
};
inline Globals G;

// One execution: resets the global counters, checks at the end that everything was released.
struct Run {
  Run() { G.vals.set(0); G.fns.set(0); G.rcvrs.set(0); G.armed.set(0); G.thrown.set(0); G.calls.set(0); G.clock.set(0); G.moves_throw = false; }
  ~Run() {
    if (std::uncaught_exceptions()) return;
    if (G.vals.get()) vrt::fail("%d tracked values still alive at the end (or destroyed too often)", G.vals.get());
    if (G.fns.get()) vrt::fail("%d callables still alive at the end (or destroyed too often)", G.fns.get());
    if (G.rcvrs.get()) vrt::fail("%d receivers still alive at the end (or destroyed too often)", G.rcvrs.get());
  }
};
// the armed'th throwing point from now throws Boom{code}
inline void arm(int nth, int code, bool only_me = false) { G.arm_tid.set(only_me ? vrt::tid() : -1); G.armed.set(nth); G.arm_code.set(code); G.thrown.set(0); }
inline void throw_point() {
  if (G.armed.get() > 0 && (G.arm_tid.get() < 0 || G.arm_tid.get() == vrt::tid()) && G.armed.inc(-1) == 0) { G.thrown.set(G.arm_code.get()); vrt::cover("injected throw"); throw Boom{G.arm_code.get()}; }
}

// a value that owns heap memory, is counted, and may throw when copied or moved
struct Val {
  int* p = nullptr;
  unsigned magic = 0;
  static constexpr unsigned LIVE = 0xC0FFEE01, DEAD = 0xDEADDEAD;
  explicit Val(int x) : p(new int(x)), magic(LIVE) { G.vals.inc(); }
  Val(Val const& o) : p(nullptr), magic(0) { o.chk("copied from"); throw_point(); if (o.p) p = new int(*o.p); magic = LIVE; G.vals.inc(); }
  Val(Val&& o) noexcept(false) : p(nullptr), magic(0) { o.chk("moved from"); if (G.moves_throw) throw_point(); p = std::exchange(o.p, nullptr); magic = LIVE; G.vals.inc(); }
  Val& operator=(Val o) noexcept { chk("assigned to"); std::swap(p, o.p); return *this; }
  ~Val() { chk("destroyed"); magic = DEAD; delete p; p = nullptr; G.vals.inc(-1); }
  void chk(const char* w) const { if (magic != LIVE) vrt::fail("a value is %s although it is %s", w, magic == DEAD ? "already destroyed" : "not constructed"); }
  int get() const { chk("read"); if (!p) vrt::fail("a value is read after having been moved from"); return *p; }
  friend bool operator==(Val const& a, Val const& b) { return a.get() == b.get(); }
};
// the same with noexcept moves and copies
struct NVal {
  int* p = nullptr;
  unsigned magic = 0;
  NVal() noexcept : magic(Val::LIVE) { G.vals.inc(); }
  explicit NVal(int x) noexcept : p(new int(x)), magic(Val::LIVE) { G.vals.inc(); }
  NVal(NVal const& o) noexcept : p(o.p ? new int(*o.p) : nullptr), magic(Val::LIVE) { o.chk("copied from"); G.vals.inc(); }
  NVal(NVal&& o) noexcept : p(std::exchange(o.p, nullptr)), magic(Val::LIVE) { o.chk("moved from"); G.vals.inc(); }
  NVal& operator=(NVal o) noexcept { chk("assigned to"); std::swap(p, o.p); return *this; }
  ~NVal() { chk("destroyed"); magic = Val::DEAD; delete p; p = nullptr; G.vals.inc(-1); }
  void chk(const char* w) const { if (magic != Val::LIVE) vrt::fail("a value is %s although it is %s", w, magic == Val::DEAD ? "already destroyed" : "not constructed"); }
  int get() const { chk("read"); if (!p) vrt::fail("a value is read after having been moved from"); return *p; }
};
struct Err {                                     // a user error type: copies may throw, moves do not
  int* p; unsigned magic;
  explicit Err(int c) : p(new int(c)), magic(Val::LIVE) { G.vals.inc(); }
  Err(Err const& o) : p(nullptr), magic(0) { o.chk("copied from"); throw_point(); p = new int(*o.p); magic = Val::LIVE; G.vals.inc(); }
  Err(Err&& o) noexcept : p(std::exchange(o.p, nullptr)), magic(Val::LIVE) { o.chk("moved from"); G.vals.inc(); }
  Err& operator=(Err o) noexcept { chk("assigned to"); std::swap(p, o.p); return *this; }
  ~Err() { chk("destroyed"); magic = Val::DEAD; delete p; p = nullptr; G.vals.inc(-1); }
  void chk(const char* w) const { if (magic != Val::LIVE) vrt::fail("an error is %s although it is %s", w, magic == Val::DEAD ? "already destroyed" : "not constructed"); }
  int code() const { chk("read"); if (!p) vrt::fail("an error is read after having been moved from"); return *p; }
};
// base of tracked callables
struct Tracked {
  unsigned magic = Val::LIVE;
  Tracked() noexcept { G.fns.inc(); }
  Tracked(Tracked const& o) : magic(Val::LIVE) { o.chk(); G.fns.inc(); }
  Tracked(Tracked&& o) noexcept : magic(Val::LIVE) { o.chk(); G.fns.inc(); }
  Tracked& operator=(Tracked const& o) noexcept { o.chk(); return *this; }
  ~Tracked() { chk(); magic = Val::DEAD; G.fns.inc(-1); }
  void chk() const { if (magic != Val::LIVE) vrt::fail("a callable is used or destroyed after its destruction"); }
};

enum Ch { NONE = 0, VALUE = 1, ERROR = 2, STOPPED = 3 };
inline const char* chname(int c) { return c == VALUE ? "value" : c == ERROR ? "error" : c == STOPPED ? "stopped" : "none"; }
enum { E_BADALLOC = -2, E_OTHER = -3, E_LOGIC = -4, E_SYSTEM = -5 };

inline int (*eptr_code)(std::exception_ptr) = nullptr;   // for exceptions of other libraries
inline int code_of(std::exception_ptr e) {
  if (!e) vrt::fail("set_error delivered a null exception_ptr");
  if (eptr_code) if (int c = eptr_code(e)) return c;
  try { std::rethrow_exception(std::move(e)); }
  catch (Boom const& b) { return b.code; }
  catch (Err const& b) { return b.code(); }
  catch (std::bad_alloc const&) { return E_BADALLOC; }
  catch (std::system_error const&) { return E_SYSTEM; }
  catch (std::logic_error const&) { return E_LOGIC; }
  catch (...) { return E_OTHER; }
}
inline int code_of(Err const& e) { return e.code(); }
inline int code_of(Val const& e) { return e.get(); }
inline int code_of(int e) { return e; }
inline int code_of(std::error_code const& e) { return e.value(); }
inline int num(int x) { return x; }
inline int num(unsigned x) { return (int)x; }
inline int num(long x) { return (int)x; }
inline int num(unsigned long x) { return (int)x; }
inline int num(bool x) { return x; }
inline int num(Val const& v) { return v.get(); }
inline int num(NVal const& v) { return v.get(); }
inline int num(Err const& v) { return v.code(); }
inline int num(std::monostate) { return -77; }
template <class T> requires std::is_class_v<T> inline int num(T const&) { return -88; }   // not looked at
template <class T> inline int num(std::unique_ptr<T> const& p) { if (!p) vrt::fail("a value is read after having been moved from"); return num(*p); }

// emplaces the result of a function without a move
template <class F> struct elide { F f; operator std::invoke_result_t<F>() { return f(); } };
template <class F> elide(F) -> elide<F>;

struct OpBase { virtual ~OpBase() = default; virtual void start() noexcept = 0; };

// A genuine defect recorded in known_findings.json that the harness can step over: it goes on if (and only if) the
// finding is listed there.
inline bool known_finding(const char* id, const char* label) {
  const char* e = getenv("VERIF_KNOWN");
  if (!e || !strstr(e, id)) return false;
  vrt::cover(label); return true;
}
#define KNOWN_FINDING(ID) mon::known_finding("," ID ",", "known finding: " ID)
enum Mode { KEEP = 0, SELF = 1, HANDOFF = 2 };
// Everything known about one operation; owned by the scenario and outliving the operation.
struct Rec {
  const char* name = "op";
  Mode mode = HANDOFF;
  vrt::cell<int> started, start_returned, count, ch, code, n, tid, may, stop_before_start;
  vrt::cell<int> v[6];
  std::atomic<int> flag{0};                      // completion published to the waiting thread
  OpBase* op = nullptr;
  void (*after)(Rec*) noexcept = nullptr;        // user continuation run inside the completion
  void* user = nullptr;
  Rec() = default;
  Rec(Rec const&) = delete;
  ~Rec() { destroy(); }
  void destroy() { if (OpBase* o = std::exchange(op, nullptr)) delete o; }
  void start() {
    started.set(1);
    OpBase* o = op;
    o->start();
    start_returned.set(1);
  }
  VRT_NOINSTR void note(int c, int code_) {
    vrt::observed();
    vrt::log(100, (uint64_t)c, (uint64_t)(int64_t)code_, (uint64_t)(uintptr_t)this);
    if (!started.get()) vrt::fail("%s completed with %s without having been started", name, chname(c));
    if (count.inc() != 1) vrt::fail("%s completed twice: first %s, now %s", name, chname(ch.get()), chname(c));
    ch.set(c); code.set(code_); tid.set(vrt::tid());
  }
  bool done() const { return count.get() != 0; }
  void wait() { while (!flag.load(std::memory_order_acquire)) flag.wait(0, std::memory_order_acquire); }
  // wait until completed, then (unless the receiver did it) release the operation at once
  void finish() { wait(); if (mode != KEEP) destroy(); }
  void complete() {                              // called last from the receiver, which may be gone afterwards
    if (after) after(this);
    if (mode == SELF) destroy();
    flag.store(1, std::memory_order_release);
    flag.notify_all();
  }
};

struct NoEnv {};
struct TokEnv {                                  // stop token + nothing else
  ex::inplace_stop_token tok;
  [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return tok; }
};
template <class Sch> struct SchEnv {
  Sch sch; ex::inplace_stop_token tok;
  [[nodiscard]] auto query(ex::get_stop_token_t) const noexcept { return tok; }
  [[nodiscard]] auto query(ex::get_scheduler_t) const noexcept { return sch; }
  [[nodiscard]] auto query(ex::get_start_scheduler_t) const noexcept { return sch; }
};

// what a consumer does with a value it was given as an rvalue: it takes the contents
inline void consume(Val& v) { delete std::exchange(v.p, nullptr); }
inline void consume(NVal& v) { delete std::exchange(v.p, nullptr); }
inline void consume(Err& v) { delete std::exchange(v.p, nullptr); }
template <class T> inline void consume(T&) {}
template <class T> using norm_t = std::conditional_t<std::is_lvalue_reference_v<T>, T, std::remove_reference_t<T>&&>;
template <class Tag, class... A> struct sig_t {};
template <class F> struct norm_sig;
template <class Tag, class... A> struct norm_sig<Tag(A...)> { using type = sig_t<Tag, norm_t<A>...>; };
template <class Sigs> struct advertised { template <class Tag, class... A> static constexpr bool has = true; };
template <class... S> struct advertised<ex::completion_signatures<S...>> {
  template <class Tag, class... A> static constexpr bool has = (std::is_same_v<typename norm_sig<S>::type, sig_t<Tag, norm_t<A>...>> || ...);
};
template <class... A> constexpr const char* type_names() { return __PRETTY_FUNCTION__; }

// Sigs: the completions the sender advertised for Env (void: unknown)
template <class Env = TokEnv, class Sigs = void>
struct Rcv {
  using receiver_concept = ex::receiver_tag;
  Rec* r; Env env; unsigned magic = Val::LIVE;
  Rcv(Rec* r_, Env e) noexcept : r(r_), env(std::move(e)) { G.rcvrs.inc(); }
  Rcv(Rcv const&) = delete;
  Rcv(Rcv&& o) noexcept : r(o.r), env(std::move(o.env)) { o.chk(); G.rcvrs.inc(); }
  ~Rcv() { chk(); magic = Val::DEAD; G.rcvrs.inc(-1); }
  void chk() const noexcept { if (magic != Val::LIVE) vrt::fail("a receiver is used or destroyed after its destruction"); }
  template <class Tag, class... A> void truthful() noexcept {
    if constexpr (!advertised<Sigs>::template has<Tag, A...>) vrt::fail("%s: a completion that its sender does not advertise: %s; advertised: %s", r->name, type_names<Tag, A&&...>(), type_names<Sigs>());
  }
  template <class... A> void set_value(A&&... a) noexcept {
    chk(); Rec* q = r; truthful<ex::set_value_t, A...>();
    int i = 0; int x[sizeof...(A) + 1] = {num(a)...};
    ([&] { if constexpr (!std::is_lvalue_reference_v<A> && !std::is_const_v<A>) consume(a); }(), ...);
    q->note(VALUE, 0);
    q->n.set(sizeof...(A));
    for (i = 0; i < (int)sizeof...(A) && i < 6; i++) q->v[i].set(x[i]);
    q->complete();
  }
  template <class E> void set_error(E&& e) noexcept { chk(); Rec* q = r; truthful<ex::set_error_t, E>(); int c = code_of(e); q->note(ERROR, c); q->complete(); }
  void set_stopped() noexcept { chk(); Rec* q = r; truthful<ex::set_stopped_t>(); q->note(STOPPED, 0); q->complete(); }
  Env get_env() const noexcept { chk(); return env; }
};
template <class S, class R> struct OpOf : OpBase {
  ex::connect_result_t<S, R> op;
  OpOf(S&& s, R r) : op(ex::connect((S&&)s, (R&&)r)) {}
  void start() noexcept override { ex::start(op); }
};
template <class Env = TokEnv, class S> void connect(Rec& rec, S&& s, Env env = {}) {
  using R = Rcv<Env, ex::completion_signatures_of_t<S, Env>>;
  rec.op = new OpOf<S, R>((S&&)s, R(&rec, std::move(env)));
}
inline void expect(Rec& r, int ch, int code = 0) {
  if (!r.done()) vrt::fail("%s did not complete", r.name);
  if (r.ch.get() != ch || (ch == ERROR && r.code.get() != code)) vrt::fail("%s completed with %s(%d), expected %s(%d)", r.name, chname(r.ch.get()), r.code.get(), chname(ch), code);
}
inline void expect_values(Rec& r, std::initializer_list<int> l) {
  expect(r, VALUE);
  int i = 0;
  if (r.n.get() != (int)l.size()) vrt::fail("%s delivered %d values, expected %zu", r.name, r.n.get(), l.size());
  for (int x : l) { if (i < 6 && r.v[i].get() != x) vrt::fail("%s: value %d is %d, expected %d", r.name, i, r.v[i].get(), x); i++; }
}

// ---------------------------------------------------------------------------------------------
// A scriptable leaf.  Every start creates a Shot; somebody (start itself, a completer thread, or the
// stop callback) claims it exactly once and completes it.
struct Leaf;
struct Shot {
  enum { CLAIM = 1, STARTDONE = 2, STOPREQ = 4 };
  Leaf* leaf = nullptr;
  std::atomic<int> st{0};
  void (*complete)(Shot*, int how) noexcept = nullptr;
  void* op = nullptr;
  Shot* next = nullptr;
  vrt::cell<int> completed, stop_seen, how;
  void* tok = nullptr;                           // the leaf operation's copy of its stop token
};
// a thread that completes shots handed to it
struct Completer {
  std::atomic<Shot*> inbox{nullptr};
  static Shot* closing() { return (Shot*)1; }
  void give(Shot* s) {
    Shot* h = inbox.load(std::memory_order_relaxed);
    do { s->next = h; } while (!inbox.compare_exchange_weak(h, s, std::memory_order_release, std::memory_order_relaxed));
    inbox.notify_one();
  }
  std::thread th;
  std::atomic<int> quit{0};
  Shot bye;
  void run();
  void open() { th = std::thread([this] { run(); }); }
  void close() { if (th.joinable()) { give(&bye); th.join(); } }
  ~Completer() { close(); }
};
enum Where { INLINE = 0, EXTERN = 1, NEVER = 2 };   // NEVER: completes only when stopped
enum OnStop { IGNORE = 0, INCB = 1, MARK = 2 };     // reaction to a stop request
struct Leaf {
  const char* name = "leaf";
  int how = VALUE, val = 0, where = INLINE, onstop = IGNORE;
  Completer* by = nullptr;
  bool in_op = false;                              // completes with data that lives in its operation state
  vrt::cell<int> starts, completes, stops, live_ops, tid, start_tid, running, stop_possible, bad, how_done, t_begin, t_end;   // t_*: logical times around the completion call
  std::vector<std::unique_ptr<Shot>> shots;
  void (*on_start)(Leaf*, ex::inplace_stop_token) = nullptr;
  Leaf() = default;
  Leaf(Leaf const&) = delete;
  Shot* new_shot() { vrt::quiet q; shots.push_back(std::make_unique<Shot>()); shots.back()->leaf = this; return shots.back().get(); }
};
inline bool claim(Shot* s) { return !(s->st.fetch_or(Shot::CLAIM, std::memory_order_acq_rel) & Shot::CLAIM); }
inline void Completer::run() {
  for (;;) {
    Shot* s = inbox.exchange(nullptr, std::memory_order_acquire);
    if (!s) { inbox.wait(nullptr, std::memory_order_relaxed); continue; }
    bool stop = false;
    while (s) {
      Shot* nx = s->next;
      if (s == &bye) stop = true;
      else {
        if (s->leaf->where == NEVER) { /* only a stop request completes it */ }
        else if (claim(s)) s->complete(s, (s->leaf->onstop == MARK && (s->st.load(std::memory_order_relaxed) & Shot::STOPREQ)) ? STOPPED : s->leaf->how);
      }
      s = nx;
    }
    if (stop) return;
  }
}
template <class R> struct LeafOp {
  using operation_state_concept = ex::operation_state_tag;
  struct OnStopFn { Shot* s; void operator()() noexcept {
    Shot* q = s;
    if (q->stop_seen.inc() != 1) vrt::fail("%s: its stop callback ran twice", q->leaf->name);
    q->leaf->stops.inc();
    { auto tok = *(tok_t*)q->tok; if (!tok.stop_requested() || !tok.stop_possible()) vrt::fail("%s: its stop callback runs but its token reports no stop request", q->leaf->name); }
    if (q->leaf->onstop == IGNORE) return;
    int old = q->st.fetch_or(Shot::STOPREQ, std::memory_order_acq_rel);
    if (q->leaf->onstop == MARK && q->leaf->where != NEVER) return;
    if ((old & Shot::STARTDONE) && claim(q)) q->complete(q, STOPPED);
  } };
  using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
  using cb_t = typename tok_t::template callback_type<OnStopFn>;
  R r; Leaf* l; Shot* shot = nullptr; std::optional<Val> held_v; std::optional<Err> held_e; std::optional<tok_t> tk; std::optional<cb_t> cb; unsigned magic = Val::LIVE;
  LeafOp(R&& r_, Leaf* l_) noexcept : r((R&&)r_), l(l_) { l->live_ops.inc(); }
  LeafOp(LeafOp&&) = delete;
  ~LeafOp() { if (magic != Val::LIVE) vrt::fail("a leaf operation is destroyed twice"); magic = Val::DEAD; l->live_ops.inc(-1);
    if (shot && !shot->completed.get()) vrt::fail("%s: operation state destroyed after start but before it completed", l->name); }
  void start() & noexcept {
    Leaf* lf = l;
    if (shot) vrt::fail("%s: started twice", lf->name);
    lf->starts.inc(); lf->running.inc(); lf->start_tid.set(vrt::tid());
    Shot* s = shot = lf->new_shot();
    s->op = this; s->complete = &do_complete;
    auto tok = ex::get_stop_token(ex::get_env(r));
    tk.emplace(tok); s->tok = &*tk;
    if constexpr (std::is_same_v<tok_t, ex::inplace_stop_token>) { if (lf->on_start) lf->on_start(lf, tok); }
    lf->stop_possible.set(tok.stop_possible());
    int where = lf->where, how = lf->how;
    cb.emplace(std::move(tok), OnStopFn{s});
    int old = s->st.fetch_or(Shot::STARTDONE, std::memory_order_acq_rel);   // from here on others may complete us
    if (where == INLINE) { if (claim(s)) do_complete(s, (old & Shot::STOPREQ) && lf->onstop != IGNORE ? STOPPED : how); return; }
    if ((old & Shot::STOPREQ) && (lf->onstop == INCB || where == NEVER)) { if (claim(s)) do_complete(s, STOPPED); return; }
    if (where == EXTERN) lf->by->give(s);
  }
  static void do_complete(Shot* s, int how) noexcept {
    auto* self = (LeafOp*)s->op;
    if (self->magic != Val::LIVE) vrt::fail("%s: operation state destroyed while it was running", s->leaf->name);
    Leaf* l = s->leaf;
    self->cb.reset();
    s->completed.set(1); s->how.set(how); l->how_done.set(how); l->t_begin.set(G.clock.inc()); l->completes.inc(); l->running.inc(-1); l->tid.set(vrt::tid());
    int v = l->val;
    switch (how) {
      case VALUE: {
        if (l->in_op) { { vrt::quiet q; self->held_v.emplace(v); } ex::set_value((R&&)self->r, std::move(*self->held_v)); break; }
        std::optional<Val> x;
        { vrt::quiet q; x.emplace(v); }
        ex::set_value((R&&)self->r, std::move(*x)); break; }
      case ERROR: {
        if (v % 2 && l->in_op) { { vrt::quiet q; self->held_e.emplace(v); } ex::set_error((R&&)self->r, std::move(*self->held_e)); }
        else if (v % 2) { std::optional<Err> e; { vrt::quiet q; e.emplace(v); } ex::set_error((R&&)self->r, std::move(*e)); }
        else ex::set_error((R&&)self->r, std::make_exception_ptr(Boom{v}));
        break; }
      default: ex::set_stopped((R&&)self->r); break;
    }
    l->t_end.set(G.clock.inc());
  }
};
struct leaf_sender {
  using sender_concept = ex::sender_tag;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(Val), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  Leaf* l;
  template <class R> auto connect(R r) const noexcept -> LeafOp<R> { return LeafOp<R>((R&&)r, l); }
};

// A set of scripted leaves below one operation, completed by up to two threads, with an optional stop
// request on the receiver's token made at a random moment.
struct Scene {
  Run run;
  std::vector<std::unique_ptr<Leaf>> lv;
  Completer comp[2]; int ncomp;
  std::unique_ptr<ex::inplace_stop_source> src{std::make_unique<ex::inplace_stop_source>()};
  Rec rec;
  enum { NO_STOP, BEFORE, THREAD, AFTER, IN_START } stop_mode = NO_STOP;
  vrt::cell<int> stop_begun, stop_done;
  void (*check_at_completion)(Scene*) noexcept = nullptr;
  void* user = nullptr;
  static constexpr const char* nm[8] = {"leaf 0", "leaf 1", "leaf 2", "leaf 3", "leaf 4", "leaf 5", "leaf 6", "leaf 7"};
  Leaf& L(int i) { return *lv[i]; }
  int n() const { return (int)lv.size(); }
  leaf_sender s(int i) { return leaf_sender{lv[i].get()}; }
  explicit Scene(int k, int values = 65, int inl = 35) {
    ncomp = vrt::range(1, 2);
    for (int i = 0; i < k; i++) {
      lv.push_back(std::make_unique<Leaf>()); Leaf& l = *lv.back();
      l.name = i < 8 ? nm[i] : "leaf"; l.val = 100 + i; l.in_op = vrt::chance(40);
      l.how = (int)vrt::choose(100) < values ? VALUE : vrt::chance(50) ? ERROR : STOPPED;
      l.where = (int)vrt::choose(100) < inl ? INLINE : EXTERN; l.onstop = vrt::choose(3); l.by = &comp[vrt::choose(ncomp)];
      if (l.how == ERROR && vrt::chance(50)) l.val++, l.val += (l.val % 2 ? 10 : 20) * (i + 1);   // distinct codes, both error types
    }
    rec.mode = (Mode)vrt::choose(3); rec.user = this;
    rec.after = [](Rec* r) noexcept { auto* sc = (Scene*)r->user; if (sc->check_at_completion) sc->check_at_completion(sc); };
    uint32_t m = vrt::choose(10);
    stop_mode = m < 4 ? NO_STOP : m < 5 ? BEFORE : m < 8 ? THREAD : m < 9 ? AFTER : IN_START;
  }
  bool stop_planned() const { return stop_mode != NO_STOP; }
  void never(int i) { L(i).where = NEVER; if (L(i).onstop == IGNORE) L(i).onstop = INCB; }
  void request_stop() { stop_begun.set(1); src->request_stop(); stop_done.set(1); }
  static inline Scene* cur = nullptr;
  bool all_completed() { for (auto& l : lv) if (l->starts.get() != l->completes.get()) return false; return true; }
  int running() { int r = 0; for (auto& l : lv) r += l->running.get(); return r; }
  // connects, starts and drives the operation to its completion
  template <class S> void go(S&& snd) { prepare((S&&)snd); drive(); }
  template <class S> void prepare(S&& snd) { mon::connect(rec, (S&&)snd, TokEnv{src->get_token()}); }
  void open() {
    bool ext[2] = {false, false};
    for (auto& l : lv) if (l->where == EXTERN) ext[l->by - comp] = true;
    for (int i = 0; i < 2; i++) if (ext[i]) comp[i].open();
  }
  void close() {
    for (auto& c : comp) c.close();
    for (auto& l : lv) if (l->live_ops.get()) vrt::fail("%s: operation state still alive at the end", l->name);
  }
  void drive() {
    open();
    std::thread st;
    cur = this;
    if (stop_mode == BEFORE) { request_stop(); vrt::cover("stop before start"); }
    if (stop_mode == THREAD) st = std::thread([this] { request_stop(); vrt::cover("stop from another thread"); });
    if (stop_mode == IN_START) L(vrt::choose(n())).on_start = [](Leaf*, ex::inplace_stop_token) { if (!cur->stop_begun.get()) { cur->request_stop(); vrt::cover("stop from within a child's start"); } };
    rec.start();
    if (stop_mode == AFTER) { request_stop(); vrt::cover("stop after start"); }
    rec.wait();
    if (st.joinable()) st.join();
    if (rec.mode != KEEP) rec.destroy();
    else if (vrt::chance(70)) { src->request_stop(); if (vrt::chance(50)) { src.reset(); vrt::cover("stop source gone before the completed operation"); } rec.destroy(); }
    rec.destroy();
    close();
  }
};

// allocator whose allocations are counted and matched
struct Arena { vrt::cell<int> live, total; vrt::cell<long> bytes; };
template <class T = std::byte> struct Alloc {
  using value_type = T;
  Arena* a;
  explicit Alloc(Arena* a_) noexcept : a(a_) {}
  template <class U> Alloc(Alloc<U> const& o) noexcept : a(o.a) {}
  T* allocate(size_t n) { throw_point(); T* p = std::allocator<T>().allocate(n); a->live.inc(); a->total.inc(); a->bytes.inc((long)(n * sizeof(T))); return p; }
  void deallocate(T* p, size_t n) noexcept {
    if (a->live.inc(-1) < 0) vrt::fail("an allocator gets back more than it handed out");
    a->bytes.inc(-(long)(n * sizeof(T)));
    if (!a->live.get() && a->bytes.get()) vrt::fail("memory was returned to an allocator with the wrong size");
    std::allocator<T>().deallocate(p, n);
  }
  template <class U> bool operator==(Alloc<U> const& o) const noexcept { return a == o.a; }
};

// region of dead stack below the caller's frame: stragglers still touching a finished call are races
__attribute__((noinline)) inline void stack_gone(size_t n) { char* f = (char*)__builtin_frame_address(0); vrt::lifetime_end(f - n - 256, n); }
}  // namespace mon

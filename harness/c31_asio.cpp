// C31: Asio operations as senders (completion_token, use_sender) and asio_thread_pool.
// The initiating functions here are scripted: they complete the handler at once, on another thread, through any number of
// intermediate handlers run by the associated executor, in parallel, only when cancelled, or never (they drop it), and throw
// at any of these points.  The executor runs what it is given on either of two threads or inline, drops it, or throws.
#include "mon.hpp"
#include <exec/asio/asio_config.hpp>
#include <exec/asio/completion_token.hpp>
#include <exec/asio/use_sender.hpp>
#include <exec/asio/asio_thread_pool.hpp>
#include <condition_variable>
#include <deque>
#include <mutex>
namespace {
using namespace mon;
namespace asio = boost::asio;
namespace ea = exec::asio;
using boost::system::error_code;

struct Fn { virtual ~Fn() = default; virtual void run() = 0; };
template <class F> struct FnOf : Fn { F f; explicit FnOf(F&& g) : f(std::move(g)) {} void run() override { std::move(f)(); } };
struct Worker {
  std::mutex m; std::condition_variable cv; std::deque<std::unique_ptr<Fn>> q; bool quit = false; int drop_pct = 0; std::thread th;
  void post(std::unique_ptr<Fn> f) { { std::lock_guard l(m); q.push_back(std::move(f)); } cv.notify_one(); }
  void open() { th = std::thread([this] {
    for (;;) {
      std::unique_ptr<Fn> f;
      { std::unique_lock l(m); cv.wait(l, [this] { return quit || !q.empty(); }); if (q.empty()) return; f = std::move(q.front()); q.pop_front(); }
      if (vrt::chance(drop_pct)) vrt::cover("an executor drops what it was given"); else f->run();
      f.reset();
    }
  }); }
  void close() { { std::lock_guard l(m); quit = true; } cv.notify_one(); th.join(); }
};

// counts the callbacks registered with it
vrt::cell<int>* callbacks = nullptr; vrt::cell<int>* busy = nullptr;
struct CTok {
  ex::inplace_stop_token t;
  template <class F> struct callback_type {
    ex::inplace_stop_callback<F> cb;
    template <class G2> callback_type(CTok k, G2&& g) noexcept : cb((callbacks->inc(), k.t), (G2&&)g) {}
    callback_type(callback_type&&) = delete;
    ~callback_type() { callbacks->inc(-1); }
  };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(CTok const&) const noexcept = default;
};
struct Env { CTok tok; Alloc<> al; auto query(ex::get_stop_token_t) const noexcept { return tok; } auto query(ex::get_allocator_t) const noexcept { return al; } };

struct Env2 { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return tok; } };
struct W : Scene {
  Worker w[2]; vrt::cell<int> cbs, first, invoked, emits, want, in, ec, val, cat, left, par, closing;
  Arena ar; int kind = 0, steps = 0, throw_pct = 0, drop_pct = 0, inline_pct = 0, post_kind = 0; bool cancellable = false, late = false;
  W() : Scene(0) {
    callbacks = &cbs; busy = &in; cbs.set(0); first.set(0); invoked.set(0); emits.set(0); want.set(0); in.set(0); ec.set(0); left.set(0); par.set(0);
    if (stop_mode == IN_START) stop_mode = BEFORE;
    val.set(vrt::range(40, 60)); cat.set(vrt::choose(4));
    kind = vrt::choose(8); steps = vrt::range(0, 3); throw_pct = vrt::chance(40) ? 12 : 0; inline_pct = vrt::chance(50) ? 35 : 0; post_kind = vrt::choose(3);
    w[0].drop_pct = w[1].drop_pct = vrt::chance(20) ? 20 : 0; drop_pct = vrt::chance(30) ? 20 : 0;
    check_at_completion = [](Scene*) noexcept { if (callbacks->get()) vrt::fail("an Asio operation completes and leaves a callback registered with the stop token of its receiver"); if (busy->get()) vrt::fail("an Asio operation completes while its initiation, an intermediate handler or a cancellation is still running"); };
  }
  // everything that the associated executor runs, the initiation and the delivery of a cancellation exclude each other
  struct Excl { W& w; explicit Excl(W& w_) : w(w_) { if (w.in.inc() != 1) vrt::fail("two parts of one Asio operation run at the same time"); } ~Excl() { w.in.inc(-1); } };
  void boom(const char* where) { int c = 200 + (int)vrt::choose(50); if (!first.get()) first.set(c); vrt::cover(where); throw Boom{c}; }
  bool throws() { return vrt::chance(throw_pct); }
  Worker& any() { return w[vrt::choose(2)]; }
  template <class F> void raw(F f) { any().post(std::unique_ptr<Fn>(new FnOf<F>(std::move(f)))); }
  void open() { w[0].open(); w[1].open(); }
  void close() { w[0].close(); w[1].close(); if (ar.live.get()) vrt::fail("memory from the receiver's allocator is not returned"); }
};
// an executor of the current kind
struct Ex {
  W* w; bool may_inline = true;
  static constexpr asio::execution::blocking_t query(asio::execution::blocking_t) noexcept { return asio::execution::blocking_t(asio::execution::blocking.never); }
  template <class F> void execute(F&& f) const {
    if (w->throws()) w->boom("an executor throws");
    if (may_inline && vrt::chance(w->inline_pct)) { vrt::cover("run inline by the executor"); std::decay_t<F> g((F&&)f); std::move(g)(); return; }
    w->raw(std::decay_t<F>((F&&)f));
  }
  bool operator==(Ex const&) const noexcept = default;
};
// an executor of the Networking TS kind
struct OldEx {
  W* w; bool may_inline = true;
  asio::execution_context& context() const noexcept { return *(asio::execution_context*)nullptr; }
  void on_work_started() const noexcept {}
  void on_work_finished() const noexcept {}
  void asked(int k) const { if (w->want.get() != k) vrt::fail("an intermediate handler is passed to the associated executor in another way than it was submitted"); }
  template <class F, class A> void dispatch(F&& f, A const&) const { asked(3); Ex{w, may_inline}.execute((F&&)f); }
  template <class F, class A> void post(F&& f, A const&) const { asked(4); Ex{w, false}.execute((F&&)f); }
  template <class F, class A> void defer(F&& f, A const&) const { asked(5); Ex{w, false}.execute((F&&)f); }
  bool operator==(OldEx const&) const noexcept = default;
};

enum { NOTHING, ONE, REFS, EC, SEC };
template <int K> struct sig_of; 
template <> struct sig_of<NOTHING> { using type = void(); };
template <> struct sig_of<ONE> { using type = void(Val); };
template <> struct sig_of<REFS> { using type = void(Val const&, NVal); };
template <> struct sig_of<SEC> { using type = void(std::error_code, Val); };
template <> struct sig_of<EC> { using type = void(error_code, Val); };
static error_code code(int e) {
  switch (e) {
  case 1: return asio::error::operation_aborted;
  case 2: return boost::system::errc::make_error_code(boost::system::errc::operation_canceled);
  case 3: return asio::error::eof;
  case 4: return boost::system::errc::make_error_code(boost::system::errc::no_such_file_or_directory);
  default: return {};
  }
}
static std::error_code std_code(int e) { return e == 0 ? std::error_code() : e == 1 ? std::error_code(ECANCELED, std::system_category()) : std::make_error_code(e == 2 ? std::errc::operation_canceled : e == 3 ? std::errc::broken_pipe : std::errc::no_such_file_or_directory); }
template <int K, class H> void call(W& w, H h) {
  w.invoked.inc(); vrt::observed();
  int v = w.val.get(), c = w.cat.get(); bool lv = vrt::chance(20);
  auto go = [&](auto&&... a) { if (lv) h((decltype(a))a...); else std::move(h)((decltype(a))a...); };
  if constexpr (K == NOTHING) go();
  else {
    Val x(v); NVal y(v + 1);
    if constexpr (K == ONE) { if (c == 0) go(x); else if (c == 1) go(std::as_const(x)); else go(std::move(x)); }
    else if constexpr (K == REFS) { if (c == 0) go(x, y); else if (c == 1) go(std::as_const(x), std::as_const(y)); else if (c == 2) go(std::move(x), std::move(y)); else go(x, std::move(y)); }
    else if constexpr (K == SEC) { if (c == 0) go(std_code(w.ec.get()), x); else go(std_code(w.ec.get()), std::move(x)); }
    else { if (c == 0) go(code(w.ec.get()), x); else go(code(w.ec.get()), std::move(x)); }
  }
}
template <int K, class H> void step(W& w, H h, int left, bool framed);
template <int K, class H> struct Step : Tracked { W* w; int left; H h; Step(W* w_, int l, H&& h_) : w(w_), left(l), h(std::move(h_)) {} void operator()() { chk(); step<K>(*w, std::move(h), left, true); } };
template <int K, class H> void submit(W& w, H h, int left, bool may_inline) {
  int k = w.post_kind == 2 ? 3 + (int)vrt::choose(3) : (int)vrt::choose(3);
  if (k < 3) {
    auto e = asio::get_associated_executor(h, Ex{&w, may_inline});
    Step<K, H> s(&w, left, std::move(h));
    if (k == 0) e.execute(std::move(s)); else if (k == 1) asio::post(e, std::move(s)); else asio::dispatch(e, std::move(s));
  } else {
    auto e = asio::get_associated_executor(h, OldEx{&w, may_inline});
    Step<K, H> s(&w, left, std::move(h)); w.want.set(k);
    if (k == 3) e.dispatch(std::move(s), std::allocator<void>()); else if (k == 4) e.post(std::move(s), std::allocator<void>()); else e.defer(std::move(s), std::allocator<void>());
    vrt::cover("executor of the old kind");
  }
}
template <int K, class H> struct Raw : Tracked { W* w; int left; H h; Raw(W* w_, int l, H&& h_) : w(w_), left(l), h(std::move(h_)) {} void operator()() { chk(); if (left < 0) call<K>(*w, std::move(h)); else if (left == 9) { H t(std::move(h)); vrt::cover("handler dropped on another thread"); } else step<K>(*w, std::move(h), left, false); } };
// one intermediate handler; framed: run by the associated executor or within the initiation
template <int K, class H> void step(W& w, H h, int left, bool framed) {
  {
    std::optional<W::Excl> x; if (framed) x.emplace(w);
    if (framed && vrt::chance(25)) {
      auto slot = asio::get_associated_cancellation_slot(h); W* q = &w;
      if (vrt::chance(75)) slot.assign([q](asio::cancellation_type t) {
        W::Excl y(*q); q->emits.inc(); vrt::cover("cancellation delivered between intermediate handlers");
        if (t == asio::cancellation_type::none) vrt::fail("a cancellation of no type");
        if (q->rec.done()) vrt::fail("a cancellation is delivered after the completion");
      }); else slot.clear();
      vrt::observed();
    }
    if (framed && w.throws()) w.boom("an intermediate handler throws");
  }
  bool after = framed && w.throws();
  if (left > 0) {
    submit<K>(w, std::move(h), left - 1, !after);
    if (after) w.boom("an intermediate handler throws after it passed on the handler");
    return;
  }
  if (vrt::chance(w.drop_pct)) { vrt::cover("handler dropped"); H t(std::move(h)); return; }
  if (after || vrt::chance(30)) {
    w.raw(Raw<K, H>(&w, -1, std::move(h)));
    if (after) w.boom("an intermediate handler throws after it passed on the handler");
    return;
  }
  call<K>(w, std::move(h));
}
template <class H> struct Par { H h; };
template <int K, class H> struct PStep : Tracked {
  W* w; std::shared_ptr<Par<H>> p; PStep(W* w_, std::shared_ptr<Par<H>> q) : w(w_), p(std::move(q)) {}
  void operator()() {
    chk(); bool last;
    { W::Excl x(*w); if (w->throws()) w->boom("one of two parallel handlers throws"); last = w->par.inc(-1) == 0; }
    if (last) { vrt::cover("the last of two parallel handlers"); if (vrt::chance(w->drop_pct)) return; call<K>(*w, std::move(p->h)); }
  }
};
template <class H> struct Hold { std::atomic<int> claim{0}; std::optional<H> h; };
template <int K, class H> void finish(W& w, std::shared_ptr<Hold<H>> hd, bool cancelled) {
  if (hd->claim.exchange(1, std::memory_order_acq_rel)) return;
  H h(std::move(*hd->h)); hd->h.reset();
  if (cancelled) { w.ec.set(1); vrt::cover("cancelled operation ends"); }
  call<K>(w, std::move(h));
}
// an executor that drops this drops the handler
template <int K, class H> struct Fin {
  W* w; std::shared_ptr<Hold<H>> hd; bool cancelled;
  Fin(W* w_, std::shared_ptr<Hold<H>> h, bool c) : w(w_), hd(std::move(h)), cancelled(c) {}
  Fin(Fin&&) noexcept = default;
  ~Fin() { if (hd && !hd->claim.exchange(1, std::memory_order_acq_rel)) { vrt::cover("cancellable operation dropped"); H h(std::move(*hd->h)); hd->h.reset(); } }
  void operator()() { finish<K>(*w, std::move(hd), cancelled); }
};
// the initiating function
template <int K> struct Init : Tracked {
  W* w;
  explicit Init(W* w_) : w(w_) {}
  template <class HH> void operator()(HH&& hh, NVal arg) {
    using H = std::decay_t<HH>; chk(); H h(std::move(hh));
    if (arg.get() != 7) vrt::fail("an argument of the initiating function arrives changed");
    { Alloc<> a = asio::get_associated_allocator(h); if (a.a != &w->ar) vrt::fail("the handler's allocator is not the receiver's"); }
    std::optional<W::Excl> x(*w);
    if (w->throws()) w->boom("the initiating function throws");
    switch (w->kind) {
    case 0: vrt::cover("completed within the initiation"); x.reset(); return call<K>(*w, std::move(h));
    case 1: vrt::cover("completed on another thread"); w->raw(Raw<K, H>(w, vrt::chance(w->drop_pct) ? 9 : -1, std::move(h))); break;
    case 2: case 3: vrt::cover("intermediate handlers"); x.reset(); return step<K>(*w, std::move(h), w->steps, true);
    case 4: vrt::cover("intermediate handlers on another thread"); w->raw(Raw<K, H>(w, w->steps, std::move(h))); break;
    case 5: {
      w->par.set(2); auto e = asio::get_associated_executor(h, Ex{w}); auto p = std::make_shared<Par<H>>(std::move(h)); bool after = w->throws();
      x.reset();
      e.execute(PStep<K, H>(w, p)); e.execute(PStep<K, H>(w, std::move(p)));
      return (void)after;
    }
    default: {
      // a cancellable operation: ends when cancelled, perhaps also by itself
      auto hd = std::make_shared<Hold<H>>(); auto slot = asio::get_associated_cancellation_slot(h); hd->h.emplace(std::move(h));
      bool by_itself = w->kind == 6 || !w->stop_planned(); W* q = w;
      if (slot.is_connected()) slot.assign([q, hd](asio::cancellation_type t) {
        W::Excl y(*q); q->emits.inc(); vrt::cover("cancellation delivered");
        if (t == asio::cancellation_type::none) vrt::fail("a cancellation of no type");
        if (q->rec.done()) vrt::fail("a cancellation is delivered after the completion");
        q->raw(Fin<K, H>(q, hd, true));
      }); else vrt::fail("an Asio operation with a stop token has no cancellation slot");
      if (by_itself) q->raw(Fin<K, H>(q, hd, false)); else vrt::cover("ends only when cancelled");
    } }
    if (w->throws()) w->boom("the initiating function throws after it passed on the handler");
  }
};
int boost_code(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (boost::system::system_error const& x) { for (int i = 1; i < 5; i++) if (x.code() == code(i)) return 1000 + i; return 999; } catch (std::system_error const& x) { for (int i = 1; i < 5; i++) if (x.code() == std_code(i)) return 1000 + i; return 998; } catch (...) {} return 0; }

template <int K, bool USE> void run() {
  W w; eptr_code = boost_code; w.open();
  if constexpr (K == EC || K == SEC) w.ec.set(vrt::chance(50) ? 0 : vrt::range(1, 4));
  auto mk = [&] { if constexpr (USE) return asio::async_initiate<ea::use_sender_t const, typename sig_of<K>::type>(Init<K>(&w), ea::use_sender, NVal(7)); else return asio::async_initiate<ea::completion_token_t const, typename sig_of<K>::type>(Init<K>(&w), ea::completion_token, NVal(7)); };
  {
    auto s = mk(); Env env{{w.src->get_token()}, Alloc<>(&w.ar)};
    if (vrt::chance(30)) { vrt::cover("connected as an lvalue"); auto const& cs = s; mon::connect(w.rec, cs, env); }
    else if (vrt::chance(30)) { auto const& cs = s; Rec other; other.name = "unstarted"; mon::connect(other, cs, env); other.destroy(); mon::connect(w.rec, std::move(s), env); vrt::cover("connected again after a copy was abandoned"); } else mon::connect(w.rec, std::move(s), env);
  }
  if (w.invoked.get()) vrt::fail("an Asio operation was initiated before it was started");
  if (vrt::chance(20)) arm(1, 77);
  w.drive(); w.close();
  int f = w.first.get(), e = w.ec.get(), v = w.val.get();
  if (f) { expect(w.rec, ERROR, f); vrt::cover("first exception delivered"); }
  else if (!w.invoked.get()) { expect(w.rec, STOPPED); vrt::cover("abandoned operation is stopped"); }
  else if (G.thrown.get()) { expect(w.rec, ERROR, 77); vrt::cover("conversion threw"); }
  else if (K >= EC && USE && e) { if (e <= 2) expect(w.rec, STOPPED); else expect(w.rec, ERROR, 1000 + e); vrt::cover(e <= 2 ? "cancelled error code is stopped" : "error code is an exception"); }
  else if (K == NOTHING) expect_values(w.rec, {});
  else if (K == ONE || USE) { if (K == REFS) expect_values(w.rec, {v, v + 1}); else expect_values(w.rec, {v}); }
  else if (K == REFS) expect_values(w.rec, {v, v + 1});
  else expect_values(w.rec, {-88, v});
  if (w.kind >= 6 && w.stop_mode == Scene::BEFORE && !f && w.emits.get() != 1 && w.kind == 7) vrt::fail("a stop request made before the start cancelled the operation %d times", w.emits.get());
  if (w.emits.get() > 1) vrt::fail("a cancellation is delivered %d times", w.emits.get());
}
// an operation with two signatures; which one is used is known only when it ends
struct Two : Tracked {
  W* w; explicit Two(W* w_) : w(w_) {}
  template <class HH> void operator()(HH&& hh) {
    using H = std::decay_t<HH>; chk();
    struct R { W* w; H h; void operator()() { int v = w->val.get(); w->invoked.inc(); vrt::observed(); if (w->cat.get() & 1) { Val x(v); w->cat.get() & 2 ? h(x) : h(std::move(x)); } else { NVal y(v); error_code c = code(w->ec.get()); w->cat.get() & 2 ? h(c, y, Val(v + 1)) : h(std::move(c), std::move(y), Val(v + 1)); } } };
    if (w->throws()) w->boom("the initiating function throws");
    if (vrt::chance(40)) return R{w, std::move(hh)}();
    w->raw(R{w, std::move(hh)});
    if (w->throws()) w->boom("the initiating function throws after it passed on the handler");
  }
};
template <bool USE> void run_two() {
  W w; eptr_code = boost_code; w.open(); w.ec.set(vrt::chance(50) ? 0 : vrt::range(1, 4));
  {
    Env env{{w.src->get_token()}, Alloc<>(&w.ar)};
    if constexpr (USE) mon::connect(w.rec, asio::async_initiate<ea::use_sender_t const, void(Val), void(error_code, NVal, Val)>(Two(&w), ea::use_sender), env);
    else mon::connect(w.rec, asio::async_initiate<ea::completion_token_t const, void(Val), void(error_code, NVal, Val)>(Two(&w), ea::completion_token), env);
  }
  w.drive(); w.close();
  int f = w.first.get(), e = w.ec.get(), v = w.val.get();
  if (f) expect(w.rec, ERROR, f); else if (!w.invoked.get()) expect(w.rec, STOPPED);
  else if (w.cat.get() & 1) { expect_values(w.rec, {v}); vrt::cover("first of two signatures"); }
  else { vrt::cover("second of two signatures"); if (USE && e) { if (e <= 2) expect(w.rec, STOPPED); else expect(w.rec, ERROR, 1000 + e); } else if (USE) expect_values(w.rec, {v, v + 1}); else expect_values(w.rec, {-88, v, v + 1}); }
}
VRT_SCENARIO_F(two_signatures_token, 0, 1) { run_two<false>(); }
VRT_SCENARIO_F(two_signatures_use_sender, 0, 1) { run_two<true>(); }

// an operation composed with asio::async_compose from token operations' own style of handlers
struct Machine {
  W* w; int left; 
  template <class Self> void operator()(Self& self) {
    W* q = w;
    if (q->throws()) q->boom("a composed operation throws");
    if (left-- > 0) {
      auto e = asio::get_associated_executor(self, Ex{q});
      if (vrt::chance(50)) asio::post(e, std::move(self)); else e.execute(std::move(self));
      return;
    }
    q->invoked.inc(); vrt::observed();
    self.complete(Val(q->val.get()));
  }
};
VRT_SCENARIO_F(composed, 0, 2) {
  W w; w.open();
  {
    Env env{{w.src->get_token()}, Alloc<>(&w.ar)}; Machine m{&w, vrt::range(0, 3)};
    if (vrt::chance(50)) { auto s = asio::async_compose<ea::completion_token_t const, void(Val)>(m, ea::completion_token, Ex{&w}); mon::connect(w.rec, std::move(s), env); }
    else { auto s = asio::async_compose<ea::use_sender_t const, void(Val)>(m, ea::use_sender, Ex{&w}); mon::connect(w.rec, std::move(s), env); }
  }
  w.drive(); w.close();
  if (int f = w.first.get()) { expect(w.rec, ERROR, f); vrt::cover("composed operation fails"); }
  else if (!w.invoked.get()) { expect(w.rec, STOPPED); vrt::cover("composed operation abandoned"); }
  else expect_values(w.rec, {w.val.get()});
}

// an I/O object whose executor carries a default token
template <class E> struct Io {
  using executor_type = E; template <class E2> struct rebind_executor { using other = Io<E2>; };
  W* w; E e;
  Io(W* w_, E e_) : w(w_), e(e_) {}
  template <class E1> explicit Io(Io<E1>&& o) : w(o.w), e(o.e) {}
  E get_executor() const noexcept { return e; }
  template <class T> auto op(T&& t) { return asio::async_initiate<std::remove_reference_t<T>, void(error_code, Val)>(Init<EC>(w), t, NVal(7)); }
  auto op() { return op(typename E::default_completion_token_type()); }
};
template <class D> void io(D const& d, bool use) {
  W w; eptr_code = boost_code; w.open(); w.ec.set(vrt::chance(50) ? 0 : vrt::range(1, 4));
  {
    auto o = D::as_default_on(Io<Ex>(&w, Ex{&w}));
    if constexpr (!std::is_same_v<decltype(o), typename D::template as_default_on_t<Io<Ex>>>) vrt::fail("as_default_on and as_default_on_t differ");
    if (!(static_cast<Ex const&>(o.get_executor()) == Ex{&w})) vrt::fail("as_default_on changes the executor of the I/O object");
    Env env{{w.src->get_token()}, Alloc<>(&w.ar)}; mon::connect(w.rec, o.op(), env);
  }
  w.drive(); w.close();
  int f = w.first.get(), e = w.ec.get(), v = w.val.get();
  if (f) expect(w.rec, ERROR, f); else if (!w.invoked.get()) expect(w.rec, STOPPED);
  else if (use && e) { if (e <= 2) expect(w.rec, STOPPED); else expect(w.rec, ERROR, 1000 + e); }
  else if (use) expect_values(w.rec, {v}); else expect_values(w.rec, {-88, v});
}
VRT_SCENARIO_F(default_token, 0, 1) { if (vrt::chance(50)) io(ea::completion_token, false); else io(ea::use_sender, true); }

// the thread pool
struct Pj { Rec rec; ex::inplace_stop_source src; int stop_mode = vrt::chance(50) ? Scene::NO_STOP : 1 + (int)vrt::choose(3); };
struct OnPool { vrt::cell<int> ran, bad, idx[4]; };
VRT_SCENARIO_F(pool, 0, 2) {
  int n = vrt::range(1, 2), k = vrt::range(1, 3);
  Run run; OnPool job[3]; Pj* sc[3]; size_t me = std::hash<std::thread::id>()(std::this_thread::get_id());
  {
    ea::asio_thread_pool p((unsigned)n);
    if (p.available_parallelism() != (unsigned)n) vrt::fail("the pool says that it has %d threads", (int)p.available_parallelism());
    auto sch = p.get_scheduler();
    if (!(sch == p.get_scheduler())) vrt::fail("two schedulers of one Asio pool differ");
    if (vrt::chance(30)) {
      ea::asio_thread_pool p2(1u);
      if (sch == p2.get_scheduler()) vrt::fail("schedulers of two Asio pools are equal");
    }
    struct Op { Pj* s; OnPool* j; int shape, thr; };
    auto go = [&](int i) {
      Pj& s = *sc[i]; OnPool* j = &job[i]; Env2 env{s.src.get_token()}; int shape = vrt::choose(4), thr = vrt::chance(25) ? (int)vrt::choose(4) : -1, v = 20 + i;
      j->ran.set(0); j->bad.set(0); for (auto& x : j->idx) x.set(0);
      auto body = [j, me, thr, i](auto...) { j->ran.inc(); vrt::observed(); if (std::hash<std::thread::id>()(std::this_thread::get_id()) == me) j->bad.set(1); if (thr == 0) throw Boom{60 + i}; };
      if (vrt::chance(50)) { mon::connect(s.rec, ex::schedule(sch) | ex::then([body, v] { body(); return Val(v); }), env); vrt::cover("scheduled on the Asio pool"); }
      else if (vrt::chance(30)) { mon::connect(s.rec, ex::schedule(sch) | ex::let_value([sch] { return ex::schedule(sch); }) | ex::then([body, v] { body(); return Val(v); }), env); vrt::cover("scheduled from within the Asio pool"); }
      else { mon::connect(s.rec, ex::schedule(sch) | ex::then([v] { return v; }) | ex::bulk(ex::par, shape, [j, me, thr, i](int n, int& x) { j->ran.inc(); j->idx[n].inc(); vrt::observed(); if (std::hash<std::thread::id>()(std::this_thread::get_id()) == me) j->bad.set(1); if (x != 20 + i) j->bad.set(2); if (thr == n) throw Boom{60 + i}; }), env); vrt::cover("bulk on the Asio pool"); j->ran.set(-100); }
      return Op{&s, j, shape, thr};
    };
    Op op[3];
    for (int i = 0; i < k; i++) { sc[i] = new Pj; op[i] = go(i); }
    std::thread st([&] { for (int i = 0; i < k; i++) if (sc[i]->stop_mode == Scene::THREAD) sc[i]->src.request_stop(); });
    for (int i = 0; i < k; i++) { if (sc[i]->stop_mode == Scene::BEFORE) sc[i]->src.request_stop(); sc[i]->rec.start(); if (sc[i]->stop_mode == Scene::AFTER) sc[i]->src.request_stop(); }
    for (int i = 0; i < k; i++) {
      sc[i]->rec.wait();
      auto& r = sc[i]->rec; auto& j = job[i]; bool stop = sc[i]->stop_mode != Scene::NO_STOP, bulk = j.ran.get() < 0;
      if (j.bad.get()) vrt::fail(j.bad.get() == 2 ? "bulk on an Asio pool passes another value" : "work scheduled on an Asio pool runs on the thread that started it");
      if (r.ch.get() == STOPPED) { if (!stop) vrt::fail("work on an Asio pool is stopped and nobody asked for it"); if (!bulk && j.ran.get()) vrt::fail("stopped after it ran"); vrt::cover("stopped before the pool ran it"); }
      else if (bulk && op[i].thr >= 0 && op[i].thr < op[i].shape) expect(r, ERROR, 60 + i);
      else if (bulk) { expect_values(r, {20 + i}); for (int x = 0; x < op[i].shape; x++) if (j.idx[x].get() != 1) vrt::fail("bulk on an Asio pool calls index %d %d times", x, j.idx[x].get()); }
      else if (op[i].thr == 0) expect(r, ERROR, 60 + i);
      else { expect_values(r, {20 + i}); if (j.ran.get() != 1) vrt::fail("a task of the Asio pool runs %d times", j.ran.get()); }
      for (int x = 0; x < 4; x++) if (j.idx[x].get() > 1) vrt::fail("bulk on an Asio pool calls index %d twice", x);
    }
    st.join();
    for (int i = 0; i < k; i++) { sc[i]->rec.destroy(); delete sc[i]; }
  }
}
VRT_SCENARIO_F(token_nothing, 0, 2) { run<NOTHING, false>(); }
VRT_SCENARIO_F(token_value, 0, 3) { run<ONE, false>(); }
VRT_SCENARIO_F(token_references, 0, 2) { run<REFS, false>(); }
VRT_SCENARIO_F(token_error_code, 0, 1) { run<EC, false>(); }
VRT_SCENARIO_F(use_sender_value, 0, 1) { run<ONE, true>(); }
VRT_SCENARIO_F(use_sender_std_error_code, 0, 2) { run<SEC, true>(); }
VRT_SCENARIO_F(use_sender_error_code, 0, 3) { run<EC, true>(); }
}  // namespace

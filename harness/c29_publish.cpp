// C29: what user code wrote before a completion is visible, without a race, to whoever consumes the completion - through
// every facility that hands a completion from one thread to another.  Plain (non-atomic) user data is written by every
// stage and read by the next; the race detector judges.
#include "mon.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/async_scope.hpp>
#include <exec/start_detached.hpp>
#include <exec/task.hpp>
#include <exec/finally.hpp>
#include <exec/repeat_until.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/when_any.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
using namespace mon;
namespace {
// a sheet of plain memory that stages write on in turn
struct Sheet { int a[6] = {}; int n = 0; void put(int v) { if (n < 6) a[n++] = v; } int sum() const { int s = 0; for (int i = 0; i < n; i++) s += a[i]; return s; } };
struct Pool { exec::static_thread_pool p; explicit Pool(int n) : p((uint32_t)n) {} };

VRT_SCENARIO_F(pub_pool_chain, 0, 6) {
  Run run; Sheet s; int n = (int)vrt::range(1, 3);
  {
    Pool p(1), q((int)vrt::range(1, 2)); auto sch = p.p.get_scheduler(), sc2 = q.p.get_scheduler();
    auto r = ex::sync_wait(ex::starts_on(sch, ex::just() | ex::then([&] { s.put(1); })) | ex::continues_on(sc2) | ex::then([&] { s.put(2); })
      | ex::bulk(ex::par, n, [&](int) {}) | ex::let_value([&] { s.put(3); return ex::schedule(sch) | ex::then([&] { s.put(4); return s.sum(); }); }));
    if (!r || std::get<0>(*r) != 10 || s.n != 4) vrt::fail("wrong result from a chain over two pools");
  }
  vrt::observed(s.n); vrt::outcome("%d", s.sum());
}
VRT_SCENARIO_F(pub_bulk, 0, 6) {
  Run run; int n = (int)vrt::range(0, 6); int in[6], out[6]; for (int i = 0; i < 6; i++) { in[i] = i + 1; out[i] = 0; }
  {
    Pool p((int)vrt::range(1, 3));
    auto k = vrt::choose(3);
    auto pre = ex::starts_on(p.p.get_scheduler(), ex::just() | ex::then([&] { for (int& x : in) x *= 2; }));
    auto f = [&](int i) { out[i] = in[i] + 1; };
    auto fc = [&](int b, int e) { for (int i = b; i < e; i++) out[i] = in[i] + 1; };
    auto post = [&] { int t = 0; for (int x : out) t += x; return t; };
    int want = 0; for (int i = 0; i < n; i++) want += 2 * (i + 1) + 1;
    int got = k == 0 ? std::get<0>(*ex::sync_wait(pre | ex::bulk(ex::par, n, f) | ex::then(post)))
            : k == 1 ? std::get<0>(*ex::sync_wait(pre | ex::bulk_chunked(ex::par, n, fc) | ex::then(post)))
                     : std::get<0>(*ex::sync_wait(pre | ex::bulk_unchunked(ex::par, n, f) | ex::then(post)));
    if (got != want) vrt::fail("bulk results sum to %d, expected %d", got, want);
  }
  vrt::observed(n); vrt::outcome("%d", n);
}
VRT_SCENARIO_F(pub_fork_join, 0, 8) {
  Run run; Sheet a, b, c; int how = vrt::choose(3);
  {
    Pool p(2); auto sch = p.p.get_scheduler();
    auto w = [&](Sheet& s, int v) { return ex::schedule(sch) | ex::then([&s, v] { s.put(v); return v; }); };
    if (how == 0) { auto [x, y, z] = *ex::sync_wait(ex::when_all(w(a, 1), w(b, 2), w(c, 3))); if (x + y + z != a.sum() + b.sum() + c.sum()) vrt::fail("when_all lost a value"); }
    else if (how == 1) {
      try { ex::sync_wait(ex::when_all(w(a, 1), w(b, 2) | ex::then([](int v) -> int { throw Boom{v}; }), w(c, 3))); vrt::fail("no error"); }
      catch (Boom const& e) { if (e.code != 2) vrt::fail("wrong error"); }
      int t = a.n + b.n + c.n; if (b.n != 1 || t > 3) vrt::fail("wrong writes");      // reads every sheet, whoever was stopped
    } else {
      auto r = ex::sync_wait(exec::when_any(w(a, 1), w(b, 2))); int t = a.sum() + b.sum();
      if (!r || t < std::get<0>(*r)) vrt::fail("when_any lost its winner's writes");
    }
  }
  vrt::observed(a.n + b.n + c.n + 1); vrt::outcome("%d", how);
}
VRT_SCENARIO_F(pub_scopes, 0, 8) {
  Run run; Sheet s[3]; int k = (int)vrt::range(1, 3), how = vrt::choose(3);
  {
    Pool p(2); auto sch = p.p.get_scheduler();
    auto w = [&](int i) { return ex::schedule(sch) | ex::then([&s, i]() noexcept { s[i].put(i + 1); }); };
    if (how == 0) { ex::counting_scope sc; for (int i = 0; i < k; i++) ex::spawn(w(i) | ex::upon_stopped([]() noexcept {}), sc.get_token()); ex::sync_wait(sc.join()); }
    else if (how == 1) { ex::simple_counting_scope sc; for (int i = 0; i < k; i++) ex::spawn(w(i) | ex::upon_stopped([]() noexcept {}), sc.get_token()); ex::sync_wait(sc.join()); }
    else { exec::async_scope sc; for (int i = 0; i < k; i++) sc.spawn(w(i)); ex::sync_wait(sc.on_empty()); }
    int t = 0; for (int i = 0; i < k; i++) t += s[i].sum();
    if (t != k * (k + 1) / 2) vrt::fail("a scope joined before its work's writes were there");
  }
  vrt::observed(k); vrt::outcome("%d %d", how, k);
}
VRT_SCENARIO_F(pub_futures, 0, 8) {
  Run run; Sheet s; int how = vrt::choose(4);
  {
    Pool p(2); auto sch = p.p.get_scheduler();
    auto w = [&] { return ex::schedule(sch) | ex::then([&s]() noexcept { s.put(5); return 5; }); };
    if (how == 0) { ex::counting_scope sc; auto f = ex::spawn_future(w(), sc.get_token()); int v = std::get<0>(*ex::sync_wait(std::move(f))); if (v != s.sum()) vrt::fail("future"); ex::sync_wait(sc.join()); }
    else if (how == 1) { exec::async_scope sc; auto f = sc.spawn_future(w()); int v = std::get<0>(*ex::sync_wait(std::move(f))); if (v != s.sum()) vrt::fail("future"); ex::sync_wait(sc.on_empty()); }
    else if (how == 2) { auto f = exec::split(w()); auto f2 = f; auto [x, y] = *ex::sync_wait(ex::when_all(f | ex::then([&](int const& v) { return v + s.sum(); }), f2 | ex::continues_on(sch) | ex::then([&](int v) { return v + s.sum(); }))); if (x != 10 || y != 10) vrt::fail("split"); }
    else { auto f = exec::ensure_started(w()); int v = std::get<0>(*ex::sync_wait(std::move(f))); if (v != s.sum()) vrt::fail("ensure_started"); }
  }
  vrt::observed(s.n); vrt::outcome("%d", how);
}
exec::task<int> hop(ex::run_loop* l, exec::static_thread_pool* p, Sheet* s) {
  s->put(1);
  co_await ex::schedule(p->get_scheduler()); s->put(2);
  co_await exec::reschedule_coroutine_on(l->get_scheduler()); s->put(3);
  int v = co_await (ex::schedule(l->get_scheduler()) | ex::then([s] { s->put(4); return s->sum(); }));
  s->put(v); co_return s->sum();
}
VRT_SCENARIO_F(pub_task, 0, 4) {
  Run run; Sheet s;
  { Pool p(1); ex::run_loop l; std::thread t([&] { l.run(); }); auto r = ex::sync_wait(hop(&l, &p.p, &s)); if (std::get<0>(*r) != 20) vrt::fail("task"); l.finish(); t.join(); }
  vrt::observed(s.n); vrt::outcome("%d", s.sum());
}
VRT_SCENARIO_F(pub_stop, 0, 6) {               // what the requester wrote before requesting stop is visible to the stopped work
  Run run; int plain = 0; ex::inplace_stop_source src; Rec rec; rec.mode = (Mode)vrt::choose(3);
  ex::run_loop l; std::thread t([&] { l.run(); });
  struct CB { int* p; int* seen; void operator()() noexcept { *seen = *p; } };
  int seen = -1, k = vrt::choose(2);
  {
    if (k) { ex::inplace_stop_callback<CB> cb(src.get_token(), CB{&plain, &seen}); std::thread r([&] { plain = 7; src.request_stop(); }); r.join(); if (seen != 7) vrt::fail("a stop callback did not see what came before the request"); }
    else {
      std::thread r([&] { plain = 7; src.request_stop(); });
      std::thread x([&] { auto tok = src.get_token(); while (!tok.stop_requested()) std::this_thread::yield(); seen = plain; });
      r.join(); x.join(); if (seen != 7) vrt::fail("stop_requested() did not publish");
    }
  }
  l.finish(); t.join(); vrt::observed(); vrt::outcome("%d", k);
}
VRT_SCENARIO_F(pub_timed, 0, 3) {
  Run run; Sheet s;
  { exec::timed_thread_context c; auto sch = c.get_scheduler(); auto [v] = *ex::sync_wait(exec::schedule_after(sch, std::chrono::milliseconds(vrt::choose(3))) | ex::then([&] { s.put(6); return s.sum(); })); if (v != s.sum()) vrt::fail("timed"); }
  vrt::observed(s.n); vrt::outcome("%d", s.sum());
}
VRT_SCENARIO_F(pub_context, 0, 3) {
  Run run; Sheet s;
  { exec::single_thread_context c; s.put(1); auto [v] = *ex::sync_wait(ex::schedule(c.get_scheduler()) | ex::then([&] { s.put(6); return s.sum(); })); if (v != s.sum()) vrt::fail("single thread context"); }
  vrt::observed(s.n); vrt::outcome("%d", s.sum());
}
}  // namespace

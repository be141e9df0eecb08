// C19: coroutine tasks as senders, and awaiting senders from them.
#include "coro.hpp"
using namespace coro;
namespace {
template <class T> void with_envs(World& w) {
  int id = w.frame(-1, is_exec<T>);
  auto mk = [&] { if constexpr (std::is_same_v<T, ET> || std::is_same_v<T, ST>) return body<T>(id, Val(500 + id)); else return vbody<T>(id, Val(500 + id)); };
  bool stoppable = true; int k = vrt::choose(5); if (k == 4) { w.stop_mode = Scene::NO_STOP; stoppable = false; }
  if (w.stop_mode != Scene::NO_STOP) for (int i = 0; i < w.n(); i++) if (vrt::chance(20)) w.never(i);
  if (w.loop) {
    auto sch = w.rl.get_scheduler(); using Sch = decltype(sch);
    if (!stoppable) go(w, mk(), CEnv<Sch, void>{sch});
    else if (k < 2) go(w, mk(), CEnv<Sch, WTok>{sch, WTok{w.src->get_token(), &w.cbs}});
    else go(w, mk(), CEnv<Sch, ex::inplace_stop_token>{sch, w.src->get_token()});
  } else {
    w.F(id).loose = true;
    using Sch = ex::inline_scheduler;
    if (!stoppable) go(w, mk(), CEnv<Sch, void>{{}});
    else if (k < 2) go(w, mk(), CEnv<Sch, WTok>{{}, WTok{w.src->get_token(), &w.cbs}});
    else go(w, mk(), CEnv<Sch, ex::inplace_stop_token>{{}, w.src->get_token()});
  }
}
VRT_SCENARIO_F(exec_inline, 0, 20) { World w(6, false); with_envs<ET>(w); }
VRT_SCENARIO_F(std_inline, 0, 20) { World w(6, false); with_envs<ST>(w); }
VRT_SCENARIO_F(exec_loop, 0, 20) { World w(6, true); with_envs<ET>(w); }
VRT_SCENARIO_F(std_loop, 0, 20) { World w(6, true); with_envs<ST>(w); }
VRT_SCENARIO_F(void_tasks, 0, 10) { World w(5, vrt::chance(50)); if (vrt::chance(50)) with_envs<EV>(w); else with_envs<SV>(w); }
}  // namespace

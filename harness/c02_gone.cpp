// C02: the operation may be destroyed by (or as soon as) its completion; nothing is touched afterwards.
// The receiver frees the operation's memory from inside the completion function, or hands it to another thread that
// frees it at once; every later access is a use-after-free in the monitored heap, whatever the schedule.
#include "poly.hpp"
namespace {
using namespace poly;
VRT_SCENARIO_F(self, 0, 30) { Profile p; p.mode = SELF; p.conc_weight = 200; run(p); }
VRT_SCENARIO_F(handoff, 0, 40) { Profile p; p.mode = HANDOFF; p.conc_weight = 250; p.inline_weight = 20; run(p); }
VRT_SCENARIO_F(stops, 0, 40) { Profile p; p.mode = vrt::chance(50) ? SELF : HANDOFF; p.stop_always = true; p.conc_weight = 300; run(p); }
VRT_SCENARIO_F(transfers, 0, 30) { Profile p; p.mode = vrt::chance(50) ? SELF : HANDOFF; p.ctx_weight = 300; run(p); }
VRT_SCENARIO_F(throws, 0, 20) { Profile p; p.mode = vrt::chance(50) ? SELF : HANDOFF; p.boom = 100; p.moves = vrt::chance(50); run(p); }
VRT_SCENARIO_F(deep, 0, 15) { Profile p; p.mode = vrt::chance(50) ? SELF : HANDOFF; p.leaves = 7; p.depth = 7; p.budget = 20; run(p); }
}  // namespace

// C06: work runs on the execution context it was sent to.
#include "poly.hpp"
namespace {
using namespace poly;
VRT_SCENARIO_F(transfers, 0, 40) { Profile p; p.ctx_weight = 500; p.deny = F_CONC; run(p); }
VRT_SCENARIO_F(no_failures, 0, 20) { Profile p; p.ctx_weight = 500; p.sched_fail = false; p.stops = false; run(p); }
VRT_SCENARIO_F(joins, 0, 25) { Profile p; p.ctx_weight = 400; p.conc_weight = 200; run(p); }
VRT_SCENARIO_F(deep, 0, 15) { Profile p; p.ctx_weight = 400; p.leaves = 6; p.depth = 7; p.budget = 18; run(p); }
VRT_SCENARIO_F(throws, 0, 15) { Profile p; p.ctx_weight = 400; p.boom = 100; p.moves = vrt::chance(50); run(p); }
VRT_SCENARIO_F(gone, 0, 15) { Profile p; p.ctx_weight = 400; p.mode = HANDOFF; run(p); }
}  // namespace

// C01: every started operation completes exactly once; one never started never completes.
#include "poly.hpp"
namespace {
using namespace poly;
VRT_SCENARIO_F(trees, 0, 25) { Profile p; p.unstarted = 6; run(p); }
VRT_SCENARIO_F(deep, 0, 15) { Profile p; p.leaves = 7; p.depth = 7; p.budget = 20; run(p); }
VRT_SCENARIO_F(joins, 0, 30) { Profile p; p.conc_weight = 500; p.leaves = 6; p.depth = 5; p.budget = 14; p.value_weight = 75; p.inline_weight = 20; run(p); }
VRT_SCENARIO_F(transfers, 0, 20) { Profile p; p.ctx_weight = 300; p.sched_fail = true; run(p); }
VRT_SCENARIO_F(throws, 0, 15) { Profile p; p.boom = 100; p.conc_weight = 250; run(p); }
VRT_SCENARIO_F(stops, 0, 20) { Profile p; p.stop_always = true; p.conc_weight = 250; run(p); }
VRT_SCENARIO_F(unstarted, 0, 5) { Profile p; p.unstarted = 100; run(p); }
}  // namespace

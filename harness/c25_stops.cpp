// C25: a stop request reaches every running leaf, whenever it is made, and the operation still completes.
// Leaves that only complete when they are stopped (NEVER) turn a request that does not arrive into an execution that
// never ends, which the scheduler of the monitored runtime reports.
#include "poly.hpp"
namespace {
using namespace poly;
Profile base() { Profile p; p.stop_always = true; p.inline_weight = 15; return p; }
VRT_SCENARIO_F(trees, 0, 30) { Profile p = base(); run(p); }
VRT_SCENARIO_F(joins, 0, 40) { Profile p = base(); p.conc_weight = 500; p.value_weight = 80; p.leaves = 5; p.budget = 12; run(p); }
VRT_SCENARIO_F(transfers, 0, 20) { Profile p = base(); p.ctx_weight = 300; run(p); }
VRT_SCENARIO_F(sequences, 0, 20) { Profile p = base(); p.deny = F_CONC | F_CTX; run(p); }
VRT_SCENARIO_F(deep, 0, 20) { Profile p = base(); p.leaves = 7; p.depth = 7; p.budget = 20; p.conc_weight = 250; run(p); }
VRT_SCENARIO_F(gone, 0, 20) { Profile p = base(); p.conc_weight = 300; p.mode = vrt::chance(50) ? SELF : HANDOFF; run(p); }
}  // namespace

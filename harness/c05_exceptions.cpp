// C05: an exception thrown by user code while an operation runs becomes exactly one error completion.
#include "poly.hpp"
namespace {
using namespace poly;
Profile base() { Profile p; p.boom = 100; p.value_weight = 80; return p; }
VRT_SCENARIO_F(calls, 0, 30) { Profile p = base(); p.deny = F_CONC | F_CTX; p.stops = false; run(p); }
VRT_SCENARIO_F(moves, 0, 40) { Profile p = base(); p.deny = F_CONC | F_CTX; p.moves = true; p.stops = false; run(p); }
VRT_SCENARIO_F(errors, 0, 30) { Profile p = base(); p.value_weight = 20; p.moves = vrt::chance(70); run(p); }
VRT_SCENARIO_F(joins, 0, 25) { Profile p = base(); p.conc_weight = 400; p.moves = vrt::chance(50); run(p); }
VRT_SCENARIO_F(transfers, 0, 25) { Profile p = base(); p.ctx_weight = 300; p.moves = vrt::chance(60); run(p); }
VRT_SCENARIO_F(copies, 0, 20) { Profile p = base(); p.lvalues = 100; run(p); }
}  // namespace

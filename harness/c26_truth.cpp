// C26: what an operation delivers is among what its sender advertises; noexcept promises hold.
#include "poly.hpp"
namespace {
using namespace poly;
VRT_SCENARIO_F(trees, 0, 25) { Profile p; run(p); }
VRT_SCENARIO_F(errors, 0, 25) { Profile p; p.value_weight = 25; run(p); }
VRT_SCENARIO_F(throws, 0, 30) { Profile p; p.boom = 100; p.moves = vrt::chance(60); run(p); }
VRT_SCENARIO_F(copies, 0, 25) { Profile p; p.lvalues = 100; p.boom = vrt::chance(60) ? 100 : 0; run(p); }
VRT_SCENARIO_F(joins, 0, 20) { Profile p; p.conc_weight = 400; p.boom = 50; run(p); }
}  // namespace

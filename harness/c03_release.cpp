// C03: senders are lazy and whatever they own is released exactly once, on every path.
#include "poly.hpp"
namespace {
using namespace poly;
VRT_SCENARIO_F(unstarted, 0, 25) { Profile p; p.unstarted = 100; p.lvalues = 50; run(p); }
VRT_SCENARIO_F(copies, 0, 20) { Profile p; p.lvalues = 100; run(p); }
VRT_SCENARIO_F(copies_throw, 0, 30) { Profile p; p.lvalues = 70; p.boom = 100; p.unstarted = 15; run(p); }
VRT_SCENARIO_F(moves_throw, 0, 30) { Profile p; p.lvalues = 40; p.boom = 100; p.moves = true; p.unstarted = 10; run(p); }
VRT_SCENARIO_F(trees, 0, 20) { Profile p; run(p); }
VRT_SCENARIO_F(early_end, 0, 20) { Profile p; p.value_weight = 30; p.stop_always = vrt::chance(60); run(p); }
}  // namespace

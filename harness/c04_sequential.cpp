// C04: what the sequential adaptors compute.
#include "poly.hpp"
namespace {
using namespace poly;
Profile base() { Profile p; p.deny = F_CONC | F_CTX; return p; }
VRT_SCENARIO_F(trees, 0, 30) { Profile p = base(); run(p); }
VRT_SCENARIO_F(all, 0, 30) { Profile p; run(p); }
VRT_SCENARIO_F(throws, 0, 30) { Profile p = base(); p.boom = 100; run(p); }
VRT_SCENARIO_F(moves, 0, 30) { Profile p = base(); p.boom = 100; p.moves = true; run(p); }
}

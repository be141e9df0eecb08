#include "c24_env.hpp"
namespace {
VRT_SCENARIO_F(nested_sequence, vrt::F_SEQ, 6) { nested<3>(); }
VRT_SCENARIO_F(nested_when_all, vrt::F_SEQ, 6) { nested<4>(); }
VRT_SCENARIO_F(nested_finally, vrt::F_SEQ, 6) { nested<5>(); }
}  // namespace

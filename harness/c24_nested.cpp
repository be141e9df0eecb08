#include "c24_env.hpp"
namespace {
VRT_SCENARIO_F(nested_plain, vrt::F_SEQ, 6) { nested<0>(); }
VRT_SCENARIO_F(nested_then, vrt::F_SEQ, 6) { nested<1>(); }
VRT_SCENARIO_F(nested_let, vrt::F_SEQ, 6) { nested<2>(); }
}  // namespace

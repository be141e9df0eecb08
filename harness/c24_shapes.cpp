#include "c24_env.hpp"
namespace {
VRT_SCENARIO_F(shapes, vrt::F_SEQ, 15) {
  mon::Run run;
  int o = vrt::choose(5);
  a_leaf(vrt::choose(6), [&](auto a) { a_leaf(vrt::choose(6), [&](auto b) { comb_at(o, a, b, [&](auto ab) {
    auto x = ab(); compare(x.e, x.m, "a joined environment");
    auto y = x.e; compare(y, x.m, "a copy of a joined environment");
    auto z = std::move(y); compare(z, x.m, "a moved environment");
    compare(ex::__fwd_env(x.e), fwd(x.m), "a forwarding view"); 
  }); }); });
}
}  // namespace

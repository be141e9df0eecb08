// C24: environments and queries.
#include "c24_env.hpp"
namespace {
// ---- random trees: every child operation's environment is judged (env_rule), and the completion scheduler attributes
// are compared with where the operation really completes --------------------------------------------------------------
VRT_SCENARIO_F(trees, 0, 20) { Profile p; run(p); }
VRT_SCENARIO_F(transfers, 0, 30) { Profile p; p.ctx_weight = 400; p.deny = F_CONC; run(p); }
VRT_SCENARIO_F(deep, 0, 15) { Profile p; p.leaves = 6; p.depth = 7; p.budget = 18; p.ctx_weight = 200; run(p); }
// defaults of the standard queries
VRT_SCENARIO_F(defaults, vrt::F_SEQ, 4) {
  mon::Run run; int v = fresh();
  ex::inplace_stop_source src; if (vrt::chance(50)) src.request_stop();
  auto e = ex::env{ex::prop{qf, v}, ex::prop{ex::get_stop_token, src.get_token()}};
  if (ex::get_stop_token(ex::env{}).stop_possible() || ex::get_stop_token(ex::prop{qf, v}).stop_possible()) vrt::fail("the default stop token can be stopped");
  if (!(ex::get_stop_token(e) == src.get_token()) || ex::get_stop_token(e).stop_requested() != src.stop_requested()) vrt::fail("get_stop_token does not return the token of the environment");
  if constexpr (!(ex::forwarding_query(ex::get_stop_token) && ex::forwarding_query(ex::get_scheduler) && ex::forwarding_query(ex::get_allocator) && ex::forwarding_query(ex::get_delegation_scheduler) && !ex::forwarding_query(qn) && ex::forwarding_query(qf))) vrt::fail("a forwarding query is not known as one, or a query that is not forwarding is");
  if (ex::get_forward_progress_guarantee(ex::inline_scheduler{}) != ex::forward_progress_guarantee::weakly_parallel) vrt::fail("the inline scheduler promises more progress than it gives");
  // read_env and the convenience senders deliver what the receiver says
  int done = 0;
  struct R { using receiver_concept = ex::receiver_tag; decltype(e) const* en; int* d; int want; ex::inplace_stop_token t; void set_value(int x) noexcept { if (x != want) vrt::fail("read_env delivers %d instead of %d", x, want); ++*d; } void set_value(ex::inplace_stop_token x) noexcept { if (!(x == t)) vrt::fail("get_stop_token() delivers another token"); ++*d; } decltype(e) get_env() const noexcept { return *en; } };
  { auto op = ex::connect(ex::read_env(qf), R{&e, &done, v, src.get_token()}); ex::start(op); }
  { auto op = ex::connect(ex::get_stop_token(), R{&e, &done, v, src.get_token()}); ex::start(op); }
  if (done != 2) vrt::fail("read_env did not complete"); vrt::observed(3);
}
}  // namespace

// C06: DDPSolver::solve rejects wrongly sized initial inputs, before touching the current result.
#include "ddp_law.hpp"
using namespace H;
template<int SD, int ID>
void go()
{
  DdpFix<SD, ID> F;
  nmpc_ddp::DDPSolver<SD, ID> s(F.p);
  F.configure(s);
  typename DdpFix<SD, ID>::SV x0, x1;
  fill("x0", x0);
  fill("x1", x1);
  int n = F.n;
  bool before = V::choose("solved_before", 2);
  if(before) s.solve(F.t0, x0, F.inputs("u", n));
  auto old = s.controlData();
  // another horizon and list, of any length, with any dimensions
  int n2 = V::choose("new_horizon", 4);
  s.config().horizon_steps = n2;
  int len = V::choose("length", 5);
  std::vector<typename DdpFix<SD, ID>::UV> ul(len);
  bool ok = len == n2;
  for(int i = 0; i < len; i++)
  {
    if constexpr(ID == Eigen::Dynamic)
    {
      int m = V::choose(nm("dim", i), 3);
      ul[i].resize(m);
      if(m != F.p->inputDim(F.t0 + i * F.dt)) ok = false;
    }
    fill(nm("w", i), ul[i]);
  }
  if(n2 == 0 && ok) return; // an empty horizon is not a configuration of the solver
  bool threw = false;
  try
  {
    s.solve(F.t0, x1, ul);
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  V::cover(threw ? "rejected" : "accepted");
  if(threw && ok) V::fail("well-sized initial inputs are accepted");
  if(!threw && !ok) V::fail("wrongly sized initial inputs are rejected with an exception");
  const auto & d = s.controlData();
  if(threw)
  {
    eq_list("rejected: u_list unchanged", d.u_list, old.u_list);
    eq_list("rejected: x_list unchanged", d.x_list, old.x_list);
    eq("rejected: cost_list unchanged", d.cost_list, old.cost_list);
  }
  else
  {
    eq("accepted: starts at the given state", d.x_list[0], x1);
    if((int)d.u_list.size() != n2 || (int)d.x_list.size() != n2 + 1 || d.cost_list.size() != n2 + 1)
      V::fail("accepted: result has the new horizon");
  }
}
template<int SD, int ID>
void tensors()
{
  // second derivatives of the state equation are not supported: that must be an error, not a silently different result
  DdpFix<SD, ID> F;
  nmpc_ddp::DDPSolver<SD, ID> s(F.p);
  F.configure(s);
  s.config().use_state_eq_second_derivative = true;
  typename DdpFix<SD, ID>::SV x0;
  fill("x0", x0);
  bool threw = false;
  try
  {
    s.solve(F.t0, x0, F.inputs("u", F.n));
  }
  catch(const std::runtime_error &)
  {
    threw = true;
  }
  if(!threw) V::fail("second derivatives of the state equation: unsupported option is reported");
}
static void run()
{
  if(opt("tensor", 0))
  {
    DDP_DISPATCH(tensors);
  }
  else
  {
    DDP_DISPATCH(go);
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=2.al=1", "s2u2.n=1.al=1", "s1ud.n=2.dims=1.al=1.cu=1", "s1ud.n=3.dims=2.al=1.cu=1", "s1u1.n=1.al=1.tensor=1",
                         "s1ud.n=3.dims=1.al=1.tensor=1", "s2u1.n=2.it=0"});
}

// C02: an iteration is adopted only when it lowers the cost enough; the cost never increases.
#include "ddp_law.hpp"
using namespace H;
template<int SD, int ID>
void go()
{
  DdpFix<SD, ID> F;
  nmpc_ddp::DDPSolver<SD, ID> s(F.p);
  F.configure(s);
  auto & c = s.config();
  typename DdpFix<SD, ID>::SV x0;
  fill("x0", x0);
  auto ul = F.inputs("u", F.n);
  s.solve(F.t0, x0, ul);
  const auto & d = s.controlData();
  const auto & tr = s.traceDataList();
  // cost of the initial inputs, rolled out independently
  double c0 = 0, c1 = 0;
  typename DdpFix<SD, ID>::SV x = x0;
  for(int i = 0; i < F.n; i++)
  {
    double t = F.t0 + i * F.dt;
    c0 += F.p->runningCost(t, x, ul[i]);
    typename DdpFix<SD, ID>::SV nx = F.p->stateEq(t, x, ul[i]);
    x = nx;
  }
  c0 += F.p->terminalCost(F.t0 + F.n * F.dt, x);
  for(int i = 0; i <= F.n; i++) c1 += d.cost_list[i];
  V::require_le("total cost of the result <= total cost of the initial inputs", c1, c0);
  V::require_eq("trace[0].cost is the cost of the initial inputs", tr[0].cost, c0);
  for(size_t i = 1; i < tr.size(); i++) V::require_le("trace cost is non-increasing", tr[i].cost, tr[i - 1].cost);
  if(c.max_iter == 1)
  {
    // one iteration: either nothing was adopted, or the decrease reaches the demanded fraction of the prediction
    vbool same = c1 == c0;
    for(int i = 0; i < F.n; i++)
      for(int j = 0; j < d.u_list[i].size(); j++) same = V::And(same, d.u_list[i][j] == ul[i][j]);
    const auto & l = tr.back();
    vbool good = V::And(l.cost_update_expected >= 0, c0 - c1 >= c.cost_update_ratio_thre * l.cost_update_expected);
    vbool flat = V::And(l.cost_update_expected < 0, c0 >= c1);
    V::require("adopted only if actual decrease >= ratio threshold * expected decrease", V::Or(same, V::Or(good, flat)));
  }
  if(d.u_list[0].size() && opt("cover", 1)) V::cover(tr.size() > 2 ? "several iterations" : "one iteration");
}
static void run()
{
  DDP_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=1.al=1.ufd=1", "s1u1.n=2.al=2.rsym=1", "s1u1.n=2.al=1.it=2.rsym=1", "s2u1.n=1.al=2.it=3.rsym=1", "s1u1.n=1.al=1.it=2.lim=1.rsym=1.salt=2",
                         "s2u2.n=2.al=3.asym=1", "s2u1.n=2.al=2.reg=2.rsym=1", "s1ud.n=4.dims=1.al=2.rsym=1", "s1u1.n=3.al=2.lim=1.rsym=1",
                         "s1u1.n=1.al=1.lim=2", "t_s1u1.n=1.al=1.lim=2.salt=2", "s1ud.n=3.dims=4.al=2.lim=1", "s1u1.n=2.neg=4.at=1.lm=8.al=2", "s1u1.n=2.neg=4.at=0.lm=1.al=1",
                         "t_s1u1.n=2.al=1.it=2.lim=1.rsym=1", "s2u2.n=1.al=1.it=2.lim=1", "s1u1.n=1.al=3.ufd=2.it=2", "s1u1.n=8.al=2.rst=3.cu=1.it=1.rsym=1",
                         "s2u1.n=3.al=4.cu=1.rsym=1", "t_s1u1.n=2.al=1.ufd=1", "t_s1u1.n=3.al=2.it=3.rsym=1"});
}

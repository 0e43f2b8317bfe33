// C12: FMPC keeps slack variables and their multipliers strictly positive.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  auto st = s.solve(F.t0, x0, v0);
  V::cover(st == F_::Status::MaxIterationReached ? "updated" : "error");
  const auto & v = s.variable();
  for(int i = 0; i < F.n; i++)
    for(int j = 0; j < v.s_list[i].size(); j++)
    {
      V::require("slack variable stays positive", v.s_list[i][j] > 0);
      V::require("multiplier of inequality stays positive", v.nu_list[i][j] > 0);
    }
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g1.n=1.ss=1", "x1u1g1.n=2", "x1u1g1.n=1.it=2.lin=1.cx=1", "x1u1g1.n=1.it=2.ub=0.lin=1.cx=1", "x2u1g2.n=1", "x2u2g1.n=2", "x1udgd.n=2.dims=1.gd=3", "x1u1g1.n=1.ss=1.ub=0", "x1u1g1.n=1.ss=1.nan=0", "x1u1g1.n=1.init=1", "x1u1g1.n=2.ufd=2", "x1u1g1.n=1.sdt=1.ss=1", "x2u1gd.n=2.gd=4.salt=2", "x1u1g1.n=1.ufd=1", "t_x1u1g1.n=1.it=2", "t_x1u1g1.n=1.it=2.ss=1.cx=1", "t_x2u1g2.n=1.ss=1.cx=1", "t_x1u1g1.n=1.ls=1.cx=1", "t_x1u1g1.n=3", "t_x2u2g1.n=3", "t_x1udgd.n=4.dims=1.gd=3"});
}

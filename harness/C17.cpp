// C17: initialisation of slack variables and multipliers from the constraint values.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  s.config().init_complementary_variable = true;
  s.config().max_iter = 0;
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  // the given slacks and multipliers do not matter, not even their sign or dimension
  int garbage = V::choose("given", 3);
  for(int i = 0; i < F.n; i++)
  {
    if(garbage == 1) v0.s_list[i].setConstant(v0.s_list[i].size(), -3);
    if(garbage == 2) v0.nu_list[i].setConstant(v0.s_list[i].size(), -3);
    if(garbage == 2 && GD == Eigen::Dynamic) v0.s_list[i].resize(0);
  }
  s.solve(F.t0, x0, v0);
  const auto & v = s.variable();
  eq_list("x unchanged", v.x_list, v0.x_list);
  eq_list("u unchanged", v.u_list, v0.u_list);
  eq_list("lambda unchanged", v.lambda_list, v0.lambda_list);
  for(int i = 0; i < F.n; i++)
  {
    double t = F.t0 + i * F.dt;
    auto g = F.p->ineqConst(t, v0.x_list[i], v0.u_list[i]);
    if(v.s_list[i].size() != g.size() || v.nu_list[i].size() != g.size()) V::fail("dimension of the constraints of the step");
    for(int j = 0; j < g.size(); j++)
    {
      double m = -g[j];
      if(m < 1e-2) m = 1e-2;
      V::require_eq("slack = margin * max(-g, minimum)", v.s_list[i][j], m * (1 + double(1e-2)));
      double w = double(1e-4) / v.s_list[i][j];
      if(w < 1e-2) w = 1e-2;
      V::require_eq("multiplier = margin * max(barrier / slack, minimum)", v.nu_list[i][j], w * (1 + double(1e-2)));
      V::require("slack is positive and exceeds the constraint margin", V::And(v.s_list[i][j] > 0, v.s_list[i][j] > -g[j]));
      V::require("multiplier is positive", v.nu_list[i][j] > 0);
    }
  }
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run, {"x1u1g1.n=1", "x1u1g1.n=3", "x2u1g2.n=2", "x2u2g1.n=2.sdt=1", "x1udgd.n=3.dims=1.gd=3", "x1udg1.n=3.dims=2", "x2u1gd.n=3.gd=1"});
}

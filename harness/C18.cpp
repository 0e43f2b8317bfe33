// C18: the barrier parameter that the FMPC step aims at.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  double scale = 1;
  if(opt("tiny", 0)) scale = double(1) / (1 << 20);
  if(opt("huge", 0)) scale = 1 << 20;
  if(opt("mix", 0)) scale = V::input("scale"), V::assume(scale > 0);
  for(auto & e : v0.nu_list) e = (e * scale).eval();
  auto st = s.solve(F.t0, x0, v0);
  RefFmpc<SD, ID, GD> ref(*F.p, F.t0, x0, v0);
  ref.eps = 1e-4;
  if(opt("init", 0))
  {
    typename F_::Solver s0(F.p);
    F.configure(s0, F.n);
    s0.config().max_iter = 0;
    s0.solve(F.t0, x0, v0);
    ref.v = s0.variable(); // the initialised variables
  }
  for(int k = 0; k < opt("it", 1); k++)
  {
    if(opt("ub", 1)) ref.barrier();
    double cl = ref.eps;
    if(cl == 1e-8) V::cover("smallest barrier parameter");
    if(cl == 1e6) V::cover("largest barrier parameter");
    ref.linearise();
    if(!ref.newton()) return;
    if(!ref.boundary()) return;
    ref.v = ref.at(ref.alpha_s, ref.alpha_nu);
  }
  V::cover("step");
  if(st != F_::Status::MaxIterationReached) V::fail("the iteration is performed");
  eq_list("multipliers move towards the barrier parameter", s.variable().nu_list, ref.v.nu_list);
  eq_list("slacks move towards the barrier parameter", s.variable().s_list, ref.v.s_list);
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g1.n=1.ss=1.cx=1", "x1u1g1.n=2.tiny=1", "x1u1g1.n=2.huge=1", "x1u1g1.n=1.mix=1.cx=1", "x1udgd.n=2.dims=1.gd=4.cx=1.mix=1", "x1u1g1.n=2.ub=0", "x1u1g1.n=1.ub=0.init=1", "x1u1g1.n=1.init=1", "x2u2g1.n=1.ub=0.cx=1", "x2u1gd.n=2.gd=2", "x1u1g1.n=1.it=2.cx=1.lin=1", "t_x1u1g1.n=1.it=2.cx=1.ub=0", "t_x1udgd.n=3.dims=1.gd=4.cx=1.mix=1", "t_x1u1g1.n=3.mix=1.cx=1"});
}

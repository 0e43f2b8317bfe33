// C11: an FMPC iteration takes the Newton step of the perturbed KKT conditions.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  for(int k = 0; k <= opt("re", 0); k++)
  {
    int n = k ? opt("n2", F.n) : F.n;
    F.configure(s, n);
    auto x0 = F.state(k ? "bxc" : "axc");
    auto v0 = F.variable(k ? "b" : "a", n, 3 * k);
    auto st = s.solve(F.t0, x0, v0);
    RefFmpc<SD, ID, GD> ref(*F.p, F.t0, x0, v0);
    bool ok = true;
    int it = 0;
    while(ok && it < s.config().max_iter)
    {
      it++;
      if(s.config().update_barrier_eps) ref.barrier();
      ref.linearise();
      if(!ref.newton()) return; // singular: not a Newton step
      ok = ref.boundary();
      if(ok) ref.v = ref.at(ref.alpha_s, ref.alpha_nu);
    }
    if(!ok)
    {
      V::cover("no step possible");
      continue;
    }
    V::cover("step taken");
    if(ref.alpha_s < 1) V::cover("step cut by a slack");
    if(st != F_::Status::MaxIterationReached) V::fail("the iteration is performed");
    eq_var("Newton step of the KKT conditions", s.variable(), ref.v);
  }
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g0.n=3", "x1u1g1.n=2", "x2u1g2.n=1", "x2u2g1.n=2", "x1udgd.n=2.dims=1.gd=3", "x1u1g1.n=1.ss=1", "x1u1g1.n=1.sdt=1", "x1u1g0.n=3.re=1.n2=2", "x1u1g1.n=1.re=1.n2=1", "x1u1g0.n=2.ufd=2", "x1u1g0.n=1.ufd=1", "x1u1g1.n=1.ufd=1", "x1u1g0.n=2.it=2", "x2u1g2.n=1.salt=3", "x1u1g0.n=6", "x2u1gd.n=3.gd=2", "x1udg1.n=2.dims=2", "x1u1g1.n=1.it=2.lin=1.cx=1", "x1u2g0.n=1.sad=1", "x1u2g0.n=2.sad=1", "x1u2g0.n=2", "t_x1udgd.n=3.dims=1.gd=3", "t_x1u1g1.n=3", "t_x1u1g1.n=4.cx=1", "t_x2u2g1.n=3", "t_x1u1g0.n=10", "t_x1u1g1.n=1.it=2", "t_x1u1g0.n=3.it=3"});
}

// C05: with input limits enabled, every input of the result lies within the limits of its own time step.
#include "ddp_law.hpp"
using namespace H;
template<int SD, int ID>
void go()
{
  DdpFix<SD, ID> F;
  nmpc_ddp::DDPSolver<SD, ID> s(F.p);
  F.configure(s);
  auto & c = s.config();
  int n = F.n;
  for(int k = 0; k <= opt("re", 0); k++)
  {
    std::string pre = k ? "b" : "a";
    typename DdpFix<SD, ID>::SV x0;
    fill(pre + "x0", x0);
    if(k) c.horizon_steps = n = opt("n2", n);
    auto ul = F.inputs(pre + "u", n);
    bool inside = opt("in", 1);
    for(int i = 0; i < n; i++)
    {
      auto l = F.lim(F.t0 + i * F.dt);
      for(int j = 0; j < ul[i].size(); j++)
      {
        if(opt("lim", 0) == 1)
        {
          // somewhere inside the limits / outside of them
          double f = double(1 + (i + 2 * j) % 5) / 6;
          ul[i][j] = l[0][j] + (inside ? f : 1 + f) * (l[1][j] - l[0][j]);
          if(opt("edge", 0)) ul[i][j] = (i + j) % 2 ? l[0][j] : l[1][j];
        }
        else if(inside)
          V::assume(V::And(l[0][j] <= ul[i][j], ul[i][j] <= l[1][j]));
      }
    }
    s.solve(F.t0, x0, ul);
    const auto & d = s.controlData();
    // initial inputs outside the limits are kept only if no step was adopted
    bool adopted = false;
    for(int i = 0; i < n && !adopted; i++)
      for(int j = 0; j < ul[i].size(); j++)
        if(d.u_list[i][j] != ul[i][j]) adopted = true;
    if(!inside && !adopted) continue;
    V::cover(adopted ? "adopted" : "kept");
    for(int i = 0; i < n; i++)
    {
      auto l = F.lim(F.t0 + i * F.dt);
      for(int j = 0; j < d.u_list[i].size(); j++)
      {
        V::require_le("lower limit <= input", l[0][j], d.u_list[i][j]);
        V::require_le("input <= upper limit", d.u_list[i][j], l[1][j]);
      }
    }
  }
}
static void run()
{
  DDP_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=3.al=2.lim=1", "s1u1.n=3.al=1.lim=1.edge=1.salt=2", "s1u1.n=3.al=1.lim=1.in=0", "s1u1.n=1.al=1.lim=2", "t_s1u1.n=1.al=1.lim=2.salt=2",
                         "t_s1u1.n=2.al=1.it=2.lim=1", "s1u1.n=1.al=1.it=2.lim=1.salt=2", "s2u1.n=3.al=2.lim=1.salt=4", "s2u2.n=2.al=1.lim=1", "s2u2.n=2.al=1.lim=1.salt=1.reg=2",
                         "s2u2.n=1.al=2.it=2.lim=1.salt=5", "s1ud.n=4.dims=1.al=1.lim=1", "s1ud.n=3.dims=3.al=1.lim=1.salt=3", "s1u1.n=5.al=1.lim=1.rst=2",
                         "s1u1.n=2.al=1.lim=1.re=1.n2=3", "s1u1.n=2.neg=4.at=1.lm=8.al=1.lim=1", "s1u1.n=3.al=2.lim=1.wide=8", "t_s1u1.n=1.al=2.lim=1.ufd=2", "t_s1u1.n=1.al=1.lim=1.ufd=2", "t_s1u1.n=2.al=2.lim=1.ufd=2",
                         "t_s1u1.n=2.al=1.lim=2", "t_s2u2.n=3.al=1.lim=1", "t_s1u1.n=3.al=1.it=2.lim=1"});
}

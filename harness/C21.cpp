// C21: calcDhDuList evaluates the discretised optimality conditions of the horizon.
#include "cgmres.hpp"
using namespace H;
static void run()
{
  CgFix F;
  auto s = F.solver();
  F.prepare(*s);
  Eigen::MatrixXd D(F.nu, F.N), U(F.nu, F.N);
  Vec x(F.nx);
  for(int k = 0; k <= opt("re", 0); k++)
  {
    std::string pre = k ? "b" : "a";
    double t = opt("t0", 0) ? double(0) : V::input(pre + "t");
    fill(pre + "x", x);
    fill(pre + "U", U);
    s->calcDhDuList(t, x, U, D);
    eq("gradient of the Hamiltonian along the horizon", D, F.F(t, x, U));
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"c.n=1.sp=1", "c.n=2.sp=1", "c.n=3.sp=1.x=2", "c.n=5.sp=1.x=2.u=2", "c.n=2.t0=1.sp=1", "c.n=3.re=1", "c.n=1.rk=1.sp=1", "c.n=2.rk=1.x=2.sp=1", "c.n=4.x=1.u=2.rk=1", "c.n=10.sp=1", "c.n=3.lin=1.x=2.u=2",
                         "c.n=2.lin=1.rk=1", "c.n=3.x=2.u=0.sp=1"});
}

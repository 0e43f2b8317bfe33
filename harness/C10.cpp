#include "boxqp.hpp"
static void run()
{
  H::boxqp_dispatch(H::FACTOR);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"ctor", "f1.H=1", "f1.H=3.print=3", "f1.H=1.tol=0", "f1.H=1.x=2", "f1.H=1.mi=1", "f1.H=0.b=0.re=1.mi=2.ls=0", "t_f1.H=1.re=1.mi=2.ls=0", "f2.H=0.b=0.g=0.ls=1",
                         "f2.H=0.b=0.x=2.ls=0.mi=2", "t_f2.H=0.b=0.x=2.ls=1.mi=3", "f2.H=0.salt=3.b=0.xs=1.gs=1.ls=0.mi=3", "f2.H=0.g=0.xs=0.ls=0.mi=2", "t_f2.H=0.g=0.xs=0.ls=1.mi=3", "f2.H=2.ls=1.b=0.g=0",
                         "t_f2.H=0.x=2.ls=0.mi=2", "d.d=2.H=0.re=1.g=0.b=0.xs=1.ls=1.mi=3", "d.d=2.H=0.tol=0.b=0.gs=1.xs=0.ls=1.mi=3", "t_d.d=2.H=0.tol=0.b=0.gs=1.ls=1.mi=3", "d.d=3.H=0.b=0.x=2.gs=1.ls=1",
                         "d.d=3.H=0.g=0.b=0.xs=1.ls=1", "d.d=4.H=0.b=0.x=2.gs=1.ls=1.mi=3", "d.d=2.H=0.salt=7.b=0.g=0.ls=1",
                         "t_f2.H=0.ls=1", "t_f2.H=0.b=0.ls=1", "t_f2.H=1.b=0.x=0.ls=0.mi=2", "t_d.d=3.H=0.b=0.x=2.ls=0", "t_d.d=3.H=0.g=0.b=0.ls=1",
                         "t_d.d=2.H=0.re=1.g=0.b=0.ls=1", "t_d.d=2.H=0.tol=0.b=0.ls=1"});
}

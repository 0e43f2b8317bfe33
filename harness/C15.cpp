// C15: the FMPC line search enforces sufficient decrease of the L1 merit function.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  RefFmpc<SD, ID, GD> ref(*F.p, F.t0, x0, v0);
  if(s.config().update_barrier_eps) ref.barrier();
  ref.linearise();
  if(!ref.newton()) return;
  if(!ref.boundary()) return;
  ref.line_search(opt("lm", 0));
  auto st = s.solve(F.t0, x0, v0);
  V::cover(ref.search_exhausted ? "search exhausted" : "step accepted");
  if(ref.alpha_s < 1) V::cover("step shortened");
  if(st != F_::Status::MaxIterationReached) V::fail("the iteration is performed");
  eq_var("first step of the backtracking that decreases the merit function sufficiently", s.variable(), ref.at(ref.alpha_s, ref.alpha_nu));
}
// directional derivative of the L1 norm, against its definition
template<int I, int O>
void deriv()
{
  Eigen::Matrix<double, O, 1> f(O > 0 ? O : 2);
  Eigen::Matrix<double, O, I> J(O > 0 ? O : 2, I > 0 ? I : 2);
  Eigen::Matrix<double, I, 1> d(I > 0 ? I : 2);
  fill("f", f);
  fill("J", J);
  fill("d", d);
  double h = V::input("h");
  V::assume(h > 0);
  double a = 0, b = 0;
  for(int i = 0; i < f.size(); i++)
  {
    if(opt("zero", 0) == i + 1) f[i] = 0;
    double jd = 0;
    for(int j = 0; j < d.size(); j++) jd += J(i, j) * d[j];
    // small enough not to cross a kink
    if(f[i] != 0) V::assume(V::And(h * jd <= std::abs(f[i]), -h * jd <= std::abs(f[i])));
    a += std::abs(f[i]);
    b += std::abs(f[i] + h * jd);
  }
  V::require_eq("directional derivative of the L1 norm is its one-sided slope", h * nmpc_fmpc::l1NormDirectionalDeriv(f, J, d), b - a);
}
static void run()
{
  FMPC_DISPATCH(go);
  if(c_ == "l11") deriv<1, 1>();
  if(c_ == "l12") deriv<1, 2>();
  if(c_ == "l22") deriv<2, 2>();
  if(c_ == "ldd") deriv<Eigen::Dynamic, Eigen::Dynamic>();
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"l11", "l12", "l12.zero=1", "l22.zero=2", "ldd", "x1u1g0.n=1.ls=1.lm=1.cx=1", "x1u1g0.n=1.ls=1.lm=1.cx=1.exh=1", "x1u1g1.n=1.ls=1.lm=1.cx=1.halv=1", "x1u1g1.n=1.ls=1.cx=1.halv=1", "x1u1g0.n=2.ls=1.cx=1.halv=2", "x2u1gd.n=1.gd=2.ls=1.lm=1.cx=1", "t_x2u2g1.n=1.ls=1.cx=1.lm=1.halv=0", "x1udgd.n=2.dims=1.gd=2.ls=1.cx=1.lm=1.halv=0", "t_x1u1g1.n=1.ls=1.lm=1.cx=1", "t_x1u1g1.n=1.ls=1.cx=1", "t_x2u2g1.n=1.ls=1.cx=1.lm=1", "t_x1u1g1.n=1.ls=1.lm=1.cx=1.exh=1", "t_x1u1g0.n=3.ls=1.cx=1", "t_x1u1g1.n=2.ls=1.cx=1.halv=1"});
}

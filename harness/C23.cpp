// C23: the C/GMRES setup starts from a stationary input.
#include "cgmres.hpp"
using namespace H;
static void run()
{
  CgFix F;
  auto s = F.solver();
  auto & p = *F.p;
  p.dhdu_limit = opt("lim", 1 << 30);
  for(int k = 0; k <= opt("re", 0); k++)
  {
    if(k && opt("upd", 0))
    {
      // in use in between
      Vec nx(F.nx), u(F.nu);
      fill("next", nx);
      u = s->u_;
      Eigen::VectorXd xn = nx, uu = u;
      s->calcControlInput(opt("upd", 0), s->x_, xn, uu);
      V::cover("used in between");
    }
    if(k) fill("xib", p.x_initial_);
    p.dhdu_calls = 0;
    if(p.lin)
    {
      // nonsingular Hessian of the Hamiltonian (affine gradient)
      Mat A(F.nu, F.nu), X, one(F.nu, 1);
      one.setOnes();
      Vec z(F.nu), zx(F.nx);
      z.setZero();
      zx.setZero();
      Vec h0 = p.h(0, zx, z, zx);
      for(int j = 0; j < F.nu; j++)
      {
        Vec e = z;
        e[j] = 1;
        Vec d = p.h(0, zx, e, zx) - h0;
        for(int i = 0; i < F.nu; i++) A(i, j) = d[i];
      }
      if(!lin_solve(A, one, X)) V::stop_path();
    }
    s->setup();
    V::cover("set up");
    Vec xi = p.x_initial_;
    eq("state starts at the problem's initial state", s->x_, xi);
    Vec l = p.p(0, xi);
    Vec g = p.h(0, xi, Vec(s->u_), l);
    V::require_le("the input is stationary for the Hamiltonian at the initial state", sq(g), double(1e-12) * double(1.0001));
    if(s->u_.size() != F.nu) V::fail("dimension of the input");
    if(s->u_list_.cols() != F.N || s->u_list_.rows() != F.nu) V::fail("input sequence covers the horizon");
    for(int i = 0; i < F.N; i++) eq("every input of the horizon starts at the stationary input", s->u_list_.col(i), s->u_);
    // the horizon is empty at t = 0, so the optimality residual is that of the stationary input
    Eigen::MatrixXd D(F.nu, F.N);
    s->calcDhDuList(0, s->x_, s->u_list_, D);
    for(int i = 0; i < F.N; i++) eq("at the start the optimality residual of every step is that of the stationary input", D.col(i), g);
    if(s->delta_u_vec_.size() != F.N * F.nu) V::fail("change of the inputs covers the horizon");
    Vec z(F.N * F.nu);
    z.setZero();
    eq("no change of the inputs before the first update", s->delta_u_vec_, z);
    if(p.dhdu_calls <= F.N + 1) V::cover("already stationary");
    if(p.lin && opt("once", 1))
    {
      // a previous initial input does not matter
      V::count("setups");
    }
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s.n=2.lin=1.co=1", "s.n=3.u=2.lin=1.co=1.cui=1.x=1", "s.n=1.lin=1.sd=1.cui=1", "s.n=2.lim=6", "s.n=1.x=2.lim=9", "s.n=3.lin=1.co=1.re=1", "s.n=2.rk=1.lin=1.x=2.cui=1.co=1", "s.n=4.u=2.x=2.lin=1.co=1.cui=1.cxi=1",
                         "s.n=1.lin=1.co=1.cui=1.cxi=1.re=1.upd=1", "s.n=2.lin=1.co=1.cui=1.cxi=1.re=1.upd=1", "s.n=2.sp=1.lim=6", "t_s.n=1.lim=14"});
}

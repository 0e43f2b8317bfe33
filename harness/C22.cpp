// C22: the C/GMRES input update solves the continuation equation.
#include "cgmres.hpp"
using namespace H;
static void run()
{
  CgFix F;
  auto s = F.solver();
  int M = F.N * F.nu;
  if(opt("set", 0))
    s->setup();
  else
  {
    // what setup() prepares, with an arbitrary input sequence
    F.prepare(*s);
    if(opt("cu", 0))
      fill_num("U", s->u_list_);
    else
      fill("U", s->u_list_);
  }
  Vec prev(M);
  prev.setZero();
  int K = std::min(opt("k", M), M);
  Vec x(F.nx), xn(F.nx);
  Eigen::VectorXd u(F.nu);
  u.setZero();
  for(int k = 0; k <= opt("re", 0); k++)
  {
    std::string pre = k ? "b" : "a";
    double t = opt("ct", 0) ? double(2 * k + 1) : V::input(pre + "t");
    V::assume(t >= 0);
    fill(pre + "x", x);
    if(opt("cxn", 0))
      fill_num(pre + "xn", xn);
    else
      fill(pre + "xn", xn);
    if(opt("cx", 0)) fill_num(pre + "x", x);
    Mat U0 = s->u_list_;
    double h = F.delta;
    Mat F0 = F.F(t, x, U0);
    Vec xd(F.nx);
    for(int i = 0; i < F.nx; i++) xd[i] = x[i] + h * ((xn[i] - x[i]) / F.dt);
    Mat F1 = F.F(t + h, xd, U0);
    auto moved = [&](const Vec & e) {
      Mat W = U0;
      for(int j = 0; j < F.N; j++)
        for(int i = 0; i < F.nu; i++) W(i, j) = U0(i, j) + h * e[j * F.nu + i];
      return F.F(t + h, xd, W);
    };
    Sys S;
    S.b = (flat(F0) * (double(1) - F.zeta * h) - flat(F1)) / h;
    S.x0 = prev;
    S.A.resize(M, M);
    Vec d(M);
    auto update = [&]() {
      s->calcControlInput(t, x, xn, u);
      Mat U1 = s->u_list_;
      eq("the control input is the first one of the horizon", u, U1.col(0));
      Vec f0 = flat(U0), f1 = flat(U1);
      for(int i = 0; i < M; i++) d[i] = (f1[i] - f0[i]) / F.dt;
    };
    if(F.p->lin)
    {
      for(int j = 0; j < M; j++)
      {
        Vec e(M);
        e.setZero();
        e[j] = 1;
        Vec a = (flat(moved(e)) - flat(F1)) / h;
        for(int i = 0; i < M; i++) S.A(i, j) = a[i];
      }
      Mat inv, one(M, 1);
      one.setOnes();
      if(!lin_solve(S.A, one, inv)) V::stop_path(); // singular
      if(K == M)
      {
        update();
        if(opt("re", 0) == 0 || k == 0) V::cover("full solve");
        Vec lhs = flat(moved(d));
        Vec f0v = flat(F0);
        double bn = std::sqrt(sq(S.b)), rn2 = sq(Vec(S.b - mul(S.A, prev)));
        if(std::sqrt(rn2) <= 1e-10 * bn)
        {
          V::cover("previous change kept");
          eq("previous change of the inputs is kept when it already solves the equation", d, prev);
        }
        else if(opt("exact", 1))
        {
          // every residual below 1e-10 |b| may end the iteration
          Vec res = lhs - f0v * (double(1) - F.zeta * h);
          V::require_le("continuation equation F(t+h, x+h*dx, U+h*dU) = (1 - zeta*h) F(t, x, U)", sq(res), (1e-20 * h * h) * sq(S.b));
        }
      }
      else
      {
        // truncated GMRES, warm-started with the previous change of the inputs
        double bn = std::sqrt(sq(S.b));
        int kk = 0;
        Vec xr = prev;
        while(kk < K && !(std::sqrt(sq(Vec(S.b - mul(S.A, xr)))) <= 1e-10 * bn))
        {
          kk++;
          if(!ref_iter(S, kk, xr)) V::stop_path();
        }
        update();
        V::cover("truncated solve");
        eq("residual-minimising change of the inputs", d, xr);
      }
    }
    else
    {
      // one unknown: the secant step of the nonlinear residual
      if(M != 1) V::stop_path();
      double r = S.b[0] - (flat(moved(prev))[0] - F1(0, 0)) / h;
      double e = prev[0];
      if(std::abs(r) > 1e-10 * std::abs(S.b[0]))
      {
        Vec v(1);
        v[0] = r > 0 ? double(1) : double(-1);
        double a = (flat(moved(v))[0] - F1(0, 0)) / h;
        if(a == 0) V::stop_path(); // singular
        e = e + r * v[0] / a; // a = A v
        V::cover("secant step");
      }
      update();
      V::require_eq("secant step of the continuation equation", d[0], e);
    }
    prev = d;
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"k.n=1.sp=1", "k.n=1.rk=1", "k.n=1.x=2.re=1", "k.n=1.lin=1.sd=1.ct=1", "k.n=2.lin=1.ct=1.cu=1.cxn=1.co=1",
                         "k.n=2.lin=1.ct=1.cu=1.cx=1.co=1", "k.n=2.lin=1.ct=1.cu=1.cx=1.co=1.k=1",
                         "k.n=3.lin=1.ct=1.cu=1.cxn=1.co=1.k=1", "k.n=1.u=2.lin=1.ct=1.cu=1.cx=1.co=1",
                         "k.n=2.x=2.lin=1.rk=1.ct=1.cu=1.co=1.cx=1", "k.n=1.set=1.lin=1.ct=1.cui=1",
                         "t_k.n=2.lin=1.ct=1.cu=1.cx=1.co=1.k=1.re=1"});
}

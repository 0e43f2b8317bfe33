// C19: GMRES returns the residual-minimising solution over its Krylov space.
#include "gmres_ref.hpp"
#include <nmpc_cgmres/Gmres.h>
using namespace H;
using CRef = Eigen::Ref<const Eigen::MatrixXd>;
static double res2(const Sys & S, const Vec & x)
{
  return sq(Vec(S.b - mul(S.A, x)));
}
static void go()
{
  int n = opt("d", 2), kmax = opt("k", n);
  Sys S;
  S.A.resize(n, n);
  S.b.resize(n);
  S.x0.resize(n);
  int salt = opt("salt", 0);
  if(opt("sA", 0))
    fill("A", S.A);
  else
    fill_num("A", S.A, salt);
  if(opt("sa", 0)) S.A(n - 1, 0) = V::input("a");
  if(opt("diag", 0))
    for(int i = 0; i < n; i++)
      for(int j = 0; j < n; j++)
        if(i != j) S.A(i, j) = 0;
  if(opt("eye", 0))
    for(int i = 0; i < n; i++) S.A(i, i) = 2;
  int sb = opt("sb", n), sx = opt("sx", 0);
  fill_num("b", S.b, salt);
  fill_num("x", S.x0, salt);
  for(int i = 0; i < sb; i++) S.b[i] = V::input(nm("b", i));
  for(int i = 0; i < sx; i++) S.x0[i] = V::input(nm("x", i));
  if(opt("x0", 0)) S.x0.setZero();
  if(opt("b0", 0)) S.b.setZero();
  S.eps = 1e-10;
  bool seps = opt("seps", 0);
  if(seps)
  {
    S.eps = V::input("eps");
    V::assume(S.eps >= 0);
  }
  if(opt("eps", 0)) S.eps = double(1) / opt("eps", 0);
  // nonsingular A
  {
    Mat X, I(n, 1);
    for(int i = 0; i < n; i++) I(i, 0) = 1;
    Mat Ac = S.A;
    if(n == 1)
    {
      if(Ac(0, 0) == 0) V::stop_path();
    }
    else if(n == 2)
    {
      if(Ac(0, 0) * Ac(1, 1) - Ac(0, 1) * Ac(1, 0) == 0) V::stop_path();
    }
    else if(!lin_solve(Ac, I, X))
      V::stop_path();
  }
  nmpc_cgmres::Gmres g;
  g.make_triangular_ = !opt("full", 0);
  g.apply_reorth_ = !opt("nore", 0);
  Vec x = S.x0;
  int reps = opt("re", 0);
  if(reps)
  {
    // used object
    Vec b1(2), x1(2);
    Mat A1(2, 2);
    fill_num("pA", A1);
    fill_num("pb", b1);
    x1.setZero();
    g.solve(CRef(A1), b1, x1, 2, 1e-10);
  }
  int calls = 0;
  if(opt("fn", 0))
  {
    // with a function: only the products of the matrix are used
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const Eigen::VectorXd> & v) {
      calls++;
      Eigen::VectorXd r = mul(S.A, Vec(v));
      return r;
    };
    g.solve(f, S.b, x, kmax, S.eps);
  }
  else if(opt("dflt", 0))
    g.solve(CRef(S.A), S.b, x);
  else
    g.solve(CRef(S.A), S.b, x, kmax, S.eps);
  int lim = std::min(kmax, n);
  if(opt("dflt", 0)) lim = n;
  int k = (int)g.err_list_.size() - 1;
  V::cover("iterations " + std::to_string(k));
  if(k < 0 || k > lim) V::fail("number of iterations within k_max and the dimension");
  double tol = S.eps * std::sqrt(sq(S.b));
  double prev = 0;
  for(int j = 0; j <= k; j++)
  {
    Vec xr;
    if(!ref_iter(S, j, xr)) V::fail("no iteration beyond the solution");
    double e2 = res2(S, xr);
    V::require_le("error list is not negative", 0, g.err_list_[j]);
    V::require_eq("error list holds the residual norm of each iterate", g.err_list_[j] * g.err_list_[j], e2);
    if(j < k) V::require("no further iteration once the tolerance is met", V::Not(g.err_list_[j] <= tol));
    if(j) V::require_le("residual never increases", e2, prev);
    prev = e2;
    if(j == k)
    {
      eq("residual-minimising iterate", x, xr);
      if(k < lim) V::require_le("stops early only when the tolerance is met", g.err_list_[k], tol);
      if(k == n) V::require_eq("exact solution after as many iterations as unknowns", e2, 0);
    }
  }
}
static void run()
{
  go();
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"g.d=1.sA=1.sx=1.seps=1", "g.d=1.sA=1.sx=1.full=1", "g.d=2.x0=1.sb=2", "g.d=2.sb=2.sx=1.seps=1", "g.d=2.sb=1.full=1", "g.d=2.sb=1.full=1.seps=1", "g.d=2.sb=1.seps=1", "g.d=2.k=1.sb=2.sx=2", "g.d=2.k=9.sb=1.fn=1.seps=1", "g.d=2.diag=1.sb=2.seps=1", "g.d=2.diag=1.sb=2.eps=8", "t_g.d=3.sb=3.k=2.eps=8", "t_g.d=3.sb=1.sx=1.seps=1", "g.d=2.diag=1.eye=1.sb=2", "g.d=3.k=1.sb=3", "g.d=3.k=2.sb=1.x0=1", "t_g.d=3.sb=0.sx=1.eps=64", "g.d=3.sb=0.sx=1.seps=1", "t_g.d=3.sb=1.eps=16", "g.d=2.b0=1.sx=2.sb=0", "g.d=2.sa=1.sb=0", "g.d=2.sA=1.k=1.sb=0.x0=1", "g.d=2.sb=1.nore=1.eps=4", "g.d=2.sb=1.re=1.seps=1", "g.d=2.x0=1.sb=1.dflt=1", "g.d=2.k=0.sb=2", "g.d=3.k=2.sb=1.full=1.eps=4", "g.d=4.k=2.sb=1.eps=4", "g.d=4.sb=0.sx=0.seps=1"});
}

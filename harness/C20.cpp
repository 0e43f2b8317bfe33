// C20: the ODE solvers perform one explicit Euler / classical Runge-Kutta step.
#include "cgmres.hpp"
using namespace H;
static void run()
{
  int nx = opt("x", 2), nu = opt("u", 1);
  Eigen::VectorXd x(nx), u(nu), r(nx);
  fill("x", x);
  fill("u", u);
  double t = V::input("t"), dt = V::input("dt");
  bool rk = opt("rk", 0);
  bool poly = opt("poly", 0);
  int calls = 0;
  double lam = poly ? V::input("lam") : double(0);
  auto f = [&](const double & s, const Vec & y) {
    Vec d(nx);
    if(poly)
    {
      // x' = lam x + 1 in every component
      for(int i = 0; i < nx; i++) d[i] = lam * y[i] + 1;
      return d;
    }
    std::vector<double> a{s};
    append(a, y);
    append(a, u);
    for(int i = 0; i < nx; i++) d[i] = V::ufun(nm("f", i), a);
    return d;
  };
  nmpc_cgmres::OdeSolver::StateEquation eqn = [&](double s, const CV & y, const CV & v, RV d) {
    calls++;
    if(y.size() != nx || v.size() != nu || d.size() != nx) V::fail("derivative called with the given dimensions");
    eq("derivative evaluated at the given input", v, u);
    d = f(s, y);
  };
  auto solver = CgFix::make(rk);
  if(opt("blk", 0))
  {
    // columns of a matrix, as the C/GMRES solver passes them
    Eigen::MatrixXd X(nx, 2);
    X.setZero();
    X.col(0) = x;
    solver->solve(eqn, t, X.col(0), u, dt, X.col(1));
    r = X.col(1);
    eq("start state unchanged", X.col(0), x);
  }
  else
    solver->solve(eqn, t, x, u, dt, r);
  if(poly)
  {
    // Taylor polynomial of the exact solution up to the order of the method
    int order = rk ? 4 : 1;
    for(int i = 0; i < nx; i++)
    {
      double d = lam * x[i] + 1, e = x[i], c = dt;
      for(int k = 1; k <= order; k++)
      {
        e += c * d;
        d = d * lam;
        c = c * dt / (k + 1);
      }
      V::require_eq("linear equation: Taylor polynomial of the method's order", r[i], e);
    }
    return;
  }
  Vec ref = rk ? rk4(f, t, x, dt) : euler(f, t, x, dt);
  eq(rk ? "classical Runge-Kutta step" : "explicit Euler step", r, ref);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run, {"e.x=1", "e.x=3.u=2", "e.x=2.u=0", "e.x=2.blk=1", "e.x=2.poly=1", "e.rk=1.x=1", "e.rk=1.x=3.u=2", "e.rk=1.x=2.u=0", "e.rk=1.x=2.blk=1", "e.rk=1.poly=1"});
}

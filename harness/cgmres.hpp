// Common parts of the C/GMRES harnesses.
#pragma once
#include "gmres_ref.hpp"
#include <nmpc_cgmres/CgmresSolver.h>
#include <nmpc_cgmres/Gmres.h>
#include <nmpc_cgmres/OdeSolver.h>
#include <cgmres_sources.inc>
namespace H
{
using CV = Eigen::Ref<const Eigen::VectorXd>;
using RV = Eigen::Ref<Eigen::VectorXd>;
// "Every problem" (uninterpreted callbacks), or every affine problem with fixed matrices (lin=1)
struct UFCg : nmpc_cgmres::CgmresProblem
{
  int nx, nu;
  bool lin, co = opt("co", 0); // co: the offsets of the affine problem are numbers
  int salt = 0;
  int dhdu_calls = 0, dhdu_limit = 1 << 30;
  bool quiet = false; // every input is stationary (setup() then only prepares the workspace)
  UFCg(int nx_, int nu_, bool l) : nx(nx_), nu(nu_), lin(l)
  {
    dim_x_ = nx;
    dim_c_ = opt("dc", nu > 1 ? 1 : 0); // inputs that stand for constraint multipliers
    dim_u_ = nu - dim_c_;
    dim_uc_ = nu;
    x_initial_.resize(nx);
    u_initial_.resize(nu);
    state_eq_param_.setZero(1);
  }
  static std::vector<double> args(const double & t, std::initializer_list<Vec> l)
  {
    std::vector<double> a{t};
    for(auto & v : l) append(a, v);
    return a;
  }
  Mat num_mat(const std::string & n, int r, int c) const
  {
    Mat m(r, c);
    fill_num(n, m, salt);
    return m;
  }
  double off(const char * n, int i, const double & t) const
  {
    return co ? num(n, i, 0, salt) : V::ufun(nm(n, i), {t});
  }
  Vec f(const double & t, const Vec & x, const Vec & u) const
  {
    Vec r(nx);
    for(int i = 0; i < nx; i++) r[i] = lin ? off("foff", i, t) : V::ufun(nm("f", i), args(t, {x, u}));
    if(lin) r = r + mul(num_mat("fx", nx, nx), x) + mul(num_mat("fu", nx, nu), u);
    return r;
  }
  Vec c(const double & t, const Vec & l, const Vec & xu) const
  {
    Vec r(nx);
    for(int i = 0; i < nx; i++) r[i] = lin ? off("coff", i, t) : V::ufun(nm("c", i), args(t, {l, xu}));
    if(lin) r = r + mul(num_mat("cl", nx, nx), l) + mul(num_mat("cx", nx, nx + nu), xu);
    return r;
  }
  Vec p(const double & t, const Vec & x) const
  {
    Vec r(nx);
    for(int i = 0; i < nx; i++) r[i] = lin ? off("poff", i, t) : V::ufun(nm("p", i), args(t, {x}));
    if(lin) r = r + mul(num_mat("px", nx, nx), x);
    return r;
  }
  Vec h(const double & t, const Vec & x, const Vec & u, const Vec & l) const
  {
    Vec r(nu);
    r.setZero();
    if(quiet) return r;
    for(int i = 0; i < nu; i++) r[i] = lin ? off("hoff", i, t) : V::ufun(nm("h", i), args(t, {x, u, l}));
    if(lin)
    {
      Mat R = num_mat("hu", nu, nu);
      for(int i = 0; i < nu; i++) R(i, i) += 4;
      r = r + mul(R, u) + mul(num_mat("hx", nu, nx), x) + mul(num_mat("hl", nu, nx), l);
    }
    return r;
  }
  void stateEquation(double t, const CV & x, const CV & u, RV dotx) override
  {
    if(x.size() != nx || u.size() != nu || dotx.size() != nx) V::fail("state equation called with the problem's dimensions");
    dotx = f(t, x, u);
  }
  void costateEquation(double t, const CV & l, const CV & xu, RV dotlmd) override
  {
    if(l.size() != nx || xu.size() != nx + nu || dotlmd.size() != nx) V::fail("costate equation called with the problem's dimensions");
    dotlmd = c(t, l, xu);
  }
  void calcDphiDx(double t, const CV & x, RV r) override
  {
    if(x.size() != nx || r.size() != nx) V::fail("terminal cost gradient called with the problem's dimensions");
    r = p(t, x);
  }
  void calcDhDu(double t, const CV & x, const CV & u, const CV & l, RV r) override
  {
    if(x.size() != nx || u.size() != nu || l.size() != nx || r.size() != nu) V::fail("Hamiltonian gradient called with the problem's dimensions");
    if(++dhdu_calls > dhdu_limit) V::stop_path();
    r = h(t, x, u, l);
  }
};
// explicit integration written out
template<class Fn>
Vec euler(Fn f, const double & t, const Vec & x, const double & dt)
{
  return x + f(t, x) * dt;
}
template<class Fn>
Vec rk4(Fn f, const double & t, const Vec & x, const double & dt)
{
  Vec a = f(t, x);
  Vec b = f(t + dt / 2, Vec(x + a * (dt / 2)));
  Vec c = f(t + dt / 2, Vec(x + b * (dt / 2)));
  Vec d = f(t + dt, Vec(x + c * dt));
  return x + (a + b * double(2) + c * double(2) + d) * (dt / 6);
}
struct CgFix
{
  std::shared_ptr<UFCg> p;
  std::shared_ptr<nmpc_cgmres::OdeSolver> ode, sim;
  int N, nx, nu;
  bool rk, simrk;
  double Tf, ratio, dt, zeta, delta;
  CgFix()
  {
    nx = opt("x", 1);
    nu = opt("u", 1);
    N = opt("n", 2);
    rk = opt("rk", 0);
    simrk = opt("srk", opt("rk", 0));
    p = std::make_shared<UFCg>(nx, nu, opt("lin", 0));
    p->salt = opt("salt", 0);
    if(opt("cxi", 0))
      fill_num("xi", p->x_initial_);
    else
      fill("xi", p->x_initial_);
    if(opt("cui", 0))
      fill_num("ui", p->u_initial_);
    else
      fill("ui", p->u_initial_);
    ode = make(rk);
    sim = make(simrk);
    bool sp = opt("sp", 0); // symbolic parameters
    Tf = 1, ratio = 1024, dt = double(1) / 8, zeta = 4, delta = double(1) / 16;
    if(opt("r", -1) >= 0) ratio = double(opt("r", 0)) / 2;
    if(sp)
    {
      Tf = V::input("Tf");
      ratio = V::input("ratio");
    }
    if(sp || opt("sd", 0))
    {
      dt = V::input("dt");
      zeta = V::input("zeta");
      delta = V::input("delta");
      V::assume(dt > 0);
      V::assume(delta > 0);
    }
  }
  static std::shared_ptr<nmpc_cgmres::OdeSolver> make(bool rk)
  {
    if(rk) return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
    return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
  }
  std::shared_ptr<nmpc_cgmres::CgmresSolver> solver(bool sep = false)
  {
    auto s = sep ? std::make_shared<nmpc_cgmres::CgmresSolver>(p, ode, sim) : std::make_shared<nmpc_cgmres::CgmresSolver>(p, ode);
    s->horizon_divide_num_ = N;
    s->steady_horizon_duration_ = Tf;
    s->horizon_increase_ratio_ = ratio;
    s->dt_ = dt;
    s->eq_zeta_ = zeta;
    s->finite_diff_delta_ = delta;
    s->k_max_ = opt("k", N * nu);
    return s;
  }
  // what setup() prepares, whatever its iteration does
  void prepare(nmpc_cgmres::CgmresSolver & s) const
  {
    p->quiet = true;
    s.setup();
    p->quiet = false;
    p->dhdu_calls = 0;
  }
  // the optimality residual of the horizon, by the discretised state and costate recursions
  Mat F(const double & t, const Vec & x0, const Mat & U) const
  {
    double T = Tf * (double(1) - std::exp(-ratio * t)), h = T / N;
    std::vector<Vec> x(N + 1), l(N + 1);
    x[0] = x0;
    for(int i = 0; i < N; i++)
    {
      Vec u = U.col(i);
      auto f = [&](const double & s, const Vec & y) { return p->f(s, y, u); };
      double ti = t + i * h;
      x[i + 1] = rk ? rk4(f, ti, x[i], h) : euler(f, ti, x[i], h);
    }
    l[N] = p->p(t + T, x[N]);
    Mat r(nu, N);
    for(int i = N - 1; i >= 0; i--)
    {
      Vec xu(nx + nu);
      for(int j = 0; j < nx; j++) xu[j] = x[i][j];
      for(int j = 0; j < nu; j++) xu[nx + j] = U(j, i);
      auto f = [&](const double & s, const Vec & y) { return p->c(s, y, xu); };
      double ti = t + (i + 1) * h;
      l[i] = rk ? rk4(f, ti, l[i + 1], -h) : euler(f, ti, l[i + 1], -h);
      Vec d = p->h(t + i * h, x[i], Vec(U.col(i)), l[i + 1]);
      for(int j = 0; j < nu; j++) r(j, i) = d[j];
    }
    return r;
  }
};
inline Vec flat(const Mat & m)
{
  Vec v(m.size());
  for(int j = 0; j < m.cols(); j++)
    for(int i = 0; i < m.rows(); i++) v[j * m.rows() + i] = m(i, j);
  return v;
}
} // namespace H

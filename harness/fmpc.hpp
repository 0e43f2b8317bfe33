// Common parts of the FMPC harnesses.
#pragma once
#include "problem.hpp"
#include <nmpc_fmpc/FmpcProblem.h>
#include <nmpc_fmpc/FmpcSolver.h>
#include "linalg.hpp"

namespace H
{
// "Every problem": state equation, inequality constraints and costs are uninterpreted functions
template<int SD, int ID, int GD>
struct UFFmpc : UFProblem<SD, ID, nmpc_fmpc::FmpcProblem<SD, ID, GD>>
{
  using B = UFProblem<SD, ID, nmpc_fmpc::FmpcProblem<SD, ID, GD>>;
  using FB = nmpc_fmpc::FmpcProblem<SD, ID, GD>;
  using SV = typename B::SV;
  using UV = typename B::UV;
  using GV = typename FB::IneqDimVector;
  std::vector<int> gdims;
  int bad_fn = -1, bad_step = -1, bad_kind = 0, bad_pos = 0; // callback `bad_fn` returns a non-finite entry at step `bad_step`
  using B::B;
  using FB::ineqDim;
  int ineqDim(double t) const override
  {
    if(GD != Eigen::Dynamic) return GD;
    int i = this->idx(t);
    return i < (int)gdims.size() ? gdims[i] : 0;
  }
  template<class M>
  void spoil(int fn, const double & t, M && m) const
  {
    if(fn != bad_fn || m.size() == 0 || this->idx(t) != bad_step) return;
    double inf = std::numeric_limits<double>::infinity();
    m(bad_pos ? 0 : m.rows() - 1, bad_pos ? 0 : m.cols() - 1) = bad_kind == 0 ? std::numeric_limits<double>::quiet_NaN() : bad_kind == 1 ? inf : -inf;
  }
  SV stateEq(double t, const SV & x, const UV & u) const override
  {
    SV r = B::stateEq(t, x, u);
    if(linear) r = lin_f(t, x, u);
    spoil(0, t, r);
    return r;
  }
  GV ineqConst(double t, const SV & x, const UV & u) const override
  {
    GV r(ineqDim(t));
    if(linear)
      r = lin_g(t, x, u);
    else
      this->uf("g", this->args(t, x, u), r);
    spoil(1, t, r);
    return r;
  }
  void calcIneqConstDeriv(double t,
                          const SV & x,
                          const UV & u,
                          Eigen::Ref<typename FB::IneqStateDimMatrix> gx,
                          Eigen::Ref<typename FB::IneqInputDimMatrix> gu) const override
  {
    if(this->deriv == UFD)
    {
      this->uf("gx", this->args(t, x, u), gx);
      this->uf("gu", this->args(t, x, u), gu);
    }
    else
    {
      int k = this->idx(t);
      fill_num("gx", gx, k + this->salt);
      fill_num("gu", gu, k + this->salt);
    }
    spoil(2, t, gx);
    spoil(3, t, gu);
  }
  void calcStateEqDeriv(double t,
                        const SV & x,
                        const UV & u,
                        Eigen::Ref<typename B::B::StateStateDimMatrix> fx,
                        Eigen::Ref<typename B::B::StateInputDimMatrix> fu) const override
  {
    B::calcStateEqDeriv(t, x, u, fx, fu);
    if(saddle && this->idx(t) == 0) fu.setZero();
    spoil(4, t, fx);
    spoil(5, t, fu);
  }
  void calcRunningCostDeriv(double t, const SV & x, const UV & u, Eigen::Ref<SV> lx, Eigen::Ref<UV> lu) const override
  {
    B::calcRunningCostDeriv(t, x, u, lx, lu);
  }
  void calcRunningCostDeriv(double t,
                            const SV & x,
                            const UV & u,
                            Eigen::Ref<SV> lx,
                            Eigen::Ref<UV> lu,
                            Eigen::Ref<typename B::B::StateStateDimMatrix> lxx,
                            Eigen::Ref<typename B::B::InputInputDimMatrix> luu,
                            Eigen::Ref<typename B::B::StateInputDimMatrix> lxu) const override
  {
    B::calcRunningCostDeriv(t, x, u, lx, lu, lxx, luu, lxu);
    if(saddle && this->idx(t) == 0)
      for(int i = 0; i < luu.rows(); i++) luu(i, i) = 0;
    if(linear)
    {
      // quadratic cost: the gradient follows from the Hessian
      SV lx0 = lx;
      UV lu0 = lu;
      lx = lx0 + lxx * x + lxu * u;
      lu = lu0 + luu * u + lxu.transpose() * x;
    }
    spoil(6, t, lx);
    spoil(7, t, lu);
    spoil(8, t, lxx);
    spoil(9, t, luu);
    spoil(10, t, lxu);
  }
  void calcTerminalCostDeriv(double t, const SV & x, Eigen::Ref<SV> vx) const override
  {
    B::calcTerminalCostDeriv(t, x, vx);
  }
  void calcTerminalCostDeriv(double t,
                             const SV & x,
                             Eigen::Ref<SV> vx,
                             Eigen::Ref<typename B::B::StateStateDimMatrix> vxx) const override
  {
    B::calcTerminalCostDeriv(t, x, vx, vxx);
    if(linear)
    {
      SV v0 = vx;
      vx = v0 + vxx * x;
    }
    spoil(11, t, vx);
    spoil(12, t, vxx);
  }
  bool saddle = false; // first step: inputs without curvature of their own, only coupled (indefinite, regular)
  bool linear = false; // linear dynamics and constraints, quadratic costs (offsets uninterpreted)
  SV lin_f(const double & t, const SV & x, const UV & u) const
  {
    typename B::B::StateStateDimMatrix A;
    typename B::B::StateInputDimMatrix Bm(SD, u.size());
    int k = this->idx(t);
    fill_num("fx", A, k + this->salt);
    if(this->reset && k % this->reset == this->reset - 1) A.setZero();
    fill_num("fu", Bm, k + this->salt);
    SV r = A * x;
    if(u.size()) r += Bm * u;
    for(int i = 0; i < SD; i++) r[i] += V::ufun(nm("foff", i), {t});
    return r;
  }
  GV lin_g(const double & t, const SV & x, const UV & u) const
  {
    int gd = ineqDim(t);
    typename FB::IneqStateDimMatrix C(gd, SD);
    typename FB::IneqInputDimMatrix D(gd, u.size());
    int k = this->idx(t);
    fill_num("gx", C, k + this->salt);
    fill_num("gu", D, k + this->salt);
    GV r = C * x;
    if(u.size()) r += D * u;
    for(int i = 0; i < gd; i++) r[i] += V::ufun(nm("goff", i), {t});
    return r;
  }
};

// A solver with an "every problem" instance, configured by the options of the case
template<int SD, int ID, int GD>
struct FmpcFix
{
  using P = UFFmpc<SD, ID, GD>;
  using Solver = nmpc_fmpc::FmpcSolver<SD, ID, GD>;
  using Status = typename Solver::Status;
  using Var = typename Solver::Variable;
  using SV = typename P::SV;
  using UV = typename P::UV;
  using GV = typename P::GV;
  double dt, t0;
  int n;
  std::shared_ptr<P> p;
  FmpcFix()
  {
    t0 = V::input("t0");
    if(opt("sdt", 0))
    {
      dt = V::input("dt");
      V::assume(dt > 0);
    }
    else
      dt = double(1) / 4;
    n = opt("n", 2);
    p = std::make_shared<P>(dt, t0, deriv_opt(), dims_for(opt("dims", 0), 16));
    p->gdims = dims_for(opt("gd", 3), 16);
    p->salt = opt("salt", 0);
    p->reset = opt("rst", 0);
    p->linear = opt("lin", 0);
    p->saddle = opt("sad", 0);
  }
  void configure(Solver & s, int nn) const
  {
    auto & c = s.config();
    c.print_level = opt("print", 0);
    c.horizon_steps = nn;
    c.max_iter = opt("it", 1);
    c.kkt_error_thre = opt("thre", -1); // negative: never converged
    c.check_nan = opt("nan", 1);
    c.init_complementary_variable = opt("init", 0);
    c.update_barrier_eps = opt("ub", 1);
    c.break_if_llt_fails = opt("brk", 0);
    c.enable_line_search = opt("ls", 0);
    c.merit_const_scale_from_lagrange_multipliers = opt("lm", 0);
  }
  template<class M>
  void val(bool sym, const std::string & name, int i, M & m, bool pos = false, int salt = 0) const
  {
    if(m.size() == 0) return;
    if(sym)
      fill(nm(name, i), m);
    else
      fill_num(name, m, i + salt);
    for(int r = 0; r < m.size(); r++)
    {
      if(!pos) continue;
      if(sym)
        V::assume(m[r] > 0);
      else
        m[r] = m[r] * m[r] + double(1) / 8;
    }
  }
  // cx: numbers for x, u, lambda; ss: symbolic s and nu
  Var variable(const std::string & pre, int nn, int salt = 0) const
  {
    Var v(nn);
    bool sx = !opt("cx", 0), ss = opt("ss", 0);
    for(int i = 0; i <= nn; i++)
    {
      double t = t0 + i * dt;
      val(sx, pre + "x", i, v.x_list[i], false, salt);
      val(sx, pre + "lam", i, v.lambda_list[i], false, salt);
      if(i == nn) continue;
      if(ID == Eigen::Dynamic) v.u_list[i].resize(p->inputDim(t));
      if(GD == Eigen::Dynamic)
      {
        v.s_list[i].resize(p->ineqDim(t));
        v.nu_list[i].resize(p->ineqDim(t));
      }
      val(sx, pre + "u", i, v.u_list[i], false, salt);
      val(ss, pre + "s", i, v.s_list[i], true, salt);
      val(ss, pre + "nu", i, v.nu_list[i], true, salt);
    }
    return v;
  }
  SV state(const std::string & name) const
  {
    SV x;
    fill(name, x);
    return x;
  }
};
// the independent reference: Newton step on the perturbed KKT conditions by condensing (no Riccati recursion)
template<int SD, int ID, int GD>
struct RefFmpc
{
  using F = FmpcFix<SD, ID, GD>;
  using P = typename F::P;
  using Var = typename F::Var;
  using SV = typename F::SV;
  using UV = typename F::UV;
  using GV = typename F::GV;
  const P & p;
  double t0, eps = 1e-4;
  SV xc;
  Var v;
  Var d; // step
  int n;
  double alpha_s = 1, alpha_nu = 1;
  struct Lin
  {
    Mat A, B, C, D, Lxx, Luu, Lxu;
    Vec Lx, Lu, f, g, xbar, gbar, Lxbar, Lubar;
  };
  std::vector<Lin> c;
  Vec tLx, tLxbar;
  Mat tLxx;
  RefFmpc(const P & p_, double t, const SV & x, const Var & v0) : p(p_), t0(t), xc(x), v(v0), d(v0), n(v0.u_list.size()) {}
  double time(int i) const
  {
    return t0 + i * p.dt();
  }
  void barrier()
  {
    double sum = 0;
    int m = 0;
    for(int i = 0; i < n; i++)
      for(int j = 0; j < v.s_list[i].size(); j++, m++) sum += v.s_list[i][j] * v.nu_list[i][j];
    double e = m ? sum / m / 2 : sum;
    if(e < 1e-8) e = 1e-8;
    if(e > 1e6) e = 1e6;
    eps = e;
  }
  void linearise()
  {
    c.assign(n, Lin());
    double dt = p.dt();
    for(int i = 0; i < n; i++)
    {
      double t = time(i);
      Lin & l = c[i];
      const SV & x = v.x_list[i];
      const UV & u = v.u_list[i];
      typename P::FB::StateStateDimMatrix A, Lxx;
      int m = u.size(), g = v.s_list[i].size();
      typename P::FB::StateInputDimMatrix Bm(SD, m), Lxu(SD, m);
      typename P::FB::InputInputDimMatrix Luu(m, m);
      typename P::FB::IneqStateDimMatrix C(g, SD);
      typename P::FB::IneqInputDimMatrix D(g, m);
      SV Lx;
      UV Lu(m);
      static_cast<const typename P::FB &>(p).calcStateEqDeriv(t, x, u, A, Bm);
      p.calcIneqConstDeriv(t, x, u, C, D);
      p.calcRunningCostDeriv(t, x, u, Lx, Lu, Lxx, Luu, Lxu);
      l.A = A, l.B = Bm, l.C = C, l.D = D, l.Lxx = Lxx, l.Luu = Luu, l.Lxu = Lxu, l.Lx = Lx, l.Lu = Lu;
      l.f = p.stateEq(t, x, u);
      l.g = p.ineqConst(t, x, u);
      l.xbar = l.f - Vec(v.x_list[i + 1]);
      l.gbar = l.g + Vec(v.s_list[i]);
      l.Lxbar = mul(l.A.transpose(), Vec(v.lambda_list[i + 1])) + mul(l.C.transpose(), Vec(v.nu_list[i])) + l.Lx * dt
                - Vec(v.lambda_list[i]);
      l.Lubar = mul(l.B.transpose(), Vec(v.lambda_list[i + 1])) + mul(l.D.transpose(), Vec(v.nu_list[i])) + l.Lu * dt;
    }
    SV vx;
    typename P::FB::StateStateDimMatrix vxx;
    p.calcTerminalCostDeriv(time(n), v.x_list[n], vx, vxx);
    tLx = vx;
    tLxx = vxx;
    tLxbar = tLx - Vec(v.lambda_list[n]);
  }
  // squared KKT error of the current variables (without barrier)
  double kkt2() const
  {
    double e = sq(Vec(xc - v.x_list[0])) + sq(tLxbar);
    for(int i = 0; i < n; i++)
    {
      e += sq(c[i].xbar) + sq(c[i].gbar) + sq(c[i].Lxbar) + sq(c[i].Lubar);
      for(int j = 0; j < v.s_list[i].size(); j++) e += (v.s_list[i][j] * v.nu_list[i][j]) * (v.s_list[i][j] * v.nu_list[i][j]);
    }
    return e;
  }
  // false: the reduced system is singular
  bool newton()
  {
    double dt = p.dt();
    std::vector<int> off(n + 1, 0);
    for(int i = 0; i < n; i++) off[i + 1] = off[i] + v.u_list[i].size();
    int M = off[n];
    auto aff = [&](const Vec & k) {
      Mat r = Mat::Zero(k.size(), M + 1);
      for(int i = 0; i < k.size(); i++) r(i, M) = k[i];
      return r;
    };
    auto unit = [&](int i) {
      Mat r = Mat::Zero(off[i + 1] - off[i], M + 1);
      for(int j = 0; j < r.rows(); j++) r(j, off[i] + j) = 1;
      return r;
    };
    std::vector<Mat> dx(n + 1), dl(n + 1), ds(n), dn(n);
    dx[0] = aff(Vec(xc - v.x_list[0]));
    for(int i = 0; i < n; i++) dx[i + 1] = mul(c[i].A, dx[i]) + mul(c[i].B, unit(i)) + aff(c[i].xbar);
    dl[n] = mul(tLxx, dx[n]) + aff(tLxbar);
    Mat S = Mat::Zero(M, M), R = Mat::Zero(M, 1);
    for(int i = n - 1; i >= 0; i--)
    {
      const Lin & l = c[i];
      Mat du = unit(i);
      ds[i] = -(mul(l.C, dx[i]) + mul(l.D, du) + aff(l.gbar));
      dn[i] = ds[i];
      for(int j = 0; j < ds[i].rows(); j++)
      {
        double s = v.s_list[i][j], nu = v.nu_list[i][j];
        for(int k = 0; k <= M; k++) dn[i](j, k) = -nu * ds[i](j, k) / s;
        dn[i](j, M) += (eps - nu * s) / s;
      }
      dl[i] = mul(l.Lxx, dx[i]) * dt + mul(l.Lxu, du) * dt + mul(l.A.transpose(), dl[i + 1]) + mul(l.C.transpose(), dn[i]) + aff(l.Lxbar);
      Mat e = mul(l.Luu, du) * dt + mul(l.Lxu.transpose(), dx[i]) * dt + mul(l.B.transpose(), dl[i + 1]) + mul(l.D.transpose(), dn[i])
              + aff(l.Lubar);
      for(int j = 0; j < e.rows(); j++)
      {
        for(int k = 0; k < M; k++) S(off[i] + j, k) = e(j, k);
        R(off[i] + j, 0) = -e(j, M);
      }
    }
    if(opt("ufd", 0))
    {
      // arbitrary derivatives: the convex case (condensed Hessian positive definite by a margin)
      if(M > 2) V::stop_path();
      V::assume(S(0, 0) > double(1) / 1024);
      if(M == 2) V::assume(S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0) > double(1) / 1024);
    }
    Mat U;
    if(!lin_solve(S, R, U)) return false;
    auto ev = [&](const Mat & a) {
      Vec r(a.rows());
      for(int i = 0; i < a.rows(); i++)
      {
        r[i] = a(i, M);
        for(int k = 0; k < M; k++) r[i] += a(i, k) * U(k, 0);
      }
      return r;
    };
    for(int i = 0; i <= n; i++)
    {
      d.x_list[i] = ev(dx[i]);
      d.lambda_list[i] = ev(dl[i]);
      if(i == n) break;
      d.u_list[i] = ev(unit(i));
      d.s_list[i] = ev(ds[i]);
      d.nu_list[i] = ev(dn[i]);
    }
    return true;
  }
  bool boundary()
  {
    alpha_s = alpha_nu = 1;
    double m = 0.995;
    for(int i = 0; i < n; i++)
      for(int j = 0; j < v.s_list[i].size(); j++)
      {
        if(d.s_list[i][j] < 0)
        {
          double a = -(m * v.s_list[i][j] / d.s_list[i][j]);
          if(a < alpha_s) alpha_s = a;
        }
        if(d.nu_list[i][j] < 0)
        {
          double a = -(m * v.nu_list[i][j] / d.nu_list[i][j]);
          if(a < alpha_nu) alpha_nu = a;
        }
      }
    if(alpha_s <= 0) return false;
    if(alpha_nu <= 0) return false;
    return true;
  }
  static double l1(const Vec & a)
  {
    double s = 0;
    for(int i = 0; i < a.size(); i++) s += std::abs(a[i]);
    return s;
  }
  Var at(const double & as, const double & an) const
  {
    Var r = v;
    for(int i = 0; i <= n; i++)
    {
      r.x_list[i] = v.x_list[i] + as * d.x_list[i];
      r.lambda_list[i] = v.lambda_list[i] + an * d.lambda_list[i];
      if(i == n) break;
      r.u_list[i] = v.u_list[i] + as * d.u_list[i];
      r.s_list[i] = v.s_list[i] + as * d.s_list[i];
      r.nu_list[i] = v.nu_list[i] + an * d.nu_list[i];
    }
    return r;
  }
  double merit(const Var & w, const double & scale) const
  {
    double o = p.terminalCost(time(n), w.x_list[n]), k = l1(Vec(xc - w.x_list[0]));
    for(int i = 0; i < n; i++)
    {
      o += p.dt() * p.runningCost(time(i), w.x_list[i], w.u_list[i]);
      for(int j = 0; j < w.s_list[i].size(); j++) o -= eps * std::log(w.s_list[i][j]);
      k += l1(Vec(p.stateEq(time(i), w.x_list[i], w.u_list[i]) - w.x_list[i + 1]));
      k += l1(Vec(p.ineqConst(time(i), w.x_list[i], w.u_list[i]) + w.s_list[i]));
    }
    return o + scale * k;
  }
  static double dl1(const Vec & f, const Vec & df)
  {
    double s = 0;
    for(int i = 0; i < f.size(); i++)
    {
      if(f[i] > 0)
        s += df[i];
      else if(f[i] < 0)
        s -= df[i];
      else
        s += std::abs(df[i]);
    }
    return s;
  }
  double merit_scale = 0;
  bool search_exhausted = false;
  void line_search(bool from_multipliers)
  {
    double od = 0, kf = 0, kd = 0;
    Vec e0 = xc - v.x_list[0];
    kf += l1(e0);
    kd += dl1(e0, -Vec(d.x_list[0]));
    for(int i = 0; i < n; i++)
    {
      const Lin & l = c[i];
      Vec dx = d.x_list[i], du = d.u_list[i], ds = d.s_list[i];
      od += p.dt() * (dot(l.Lx, dx) + dot(l.Lu, du));
      for(int j = 0; j < ds.size(); j++) od -= eps * ds[j] / v.s_list[i][j];
      kf += l1(l.xbar) + l1(l.gbar);
      kd += dl1(l.xbar, mul(l.A, dx) + mul(l.B, du) - Vec(d.x_list[i + 1]));
      kd += dl1(l.gbar, mul(l.C, dx) + mul(l.D, du) + ds);
    }
    od += dot(tLx, Vec(d.x_list[n]));
    double mn = 1e-3;
    if(from_multipliers)
    {
      merit_scale = mn;
      auto up = [&](const double & z) {
        double a = std::abs(z);
        if(a > merit_scale) merit_scale = a;
      };
      for(int i = 0; i <= n; i++)
      {
        for(int j = 0; j < SD; j++) up(v.lambda_list[i][j]);
        if(i < n)
          for(int j = 0; j < v.nu_list[i].size(); j++) up(v.nu_list[i][j]);
      }
    }
    else
    {
      merit_scale = od / (double(0.5) * kf);
      if(merit_scale < mn) merit_scale = mn;
    }
    double m0 = merit(v, merit_scale), md = od + merit_scale * kd;
    // bound: at most `halv` halvings, or (exh=1) searches in which every step length is rejected
    for(int k = 0;; k++)
    {
      if(alpha_s < 1e-10)
      {
        search_exhausted = true;
        return;
      }
      vbool ok = merit(at(alpha_s, 0), merit_scale) < m0 + 1e-3 * alpha_s * md;
      if(opt("exh", 0))
        V::assume(V::Not(ok));
      else
      {
        if(ok) return;
        if(k >= opt("halv", 3)) V::stop_path();
      }
      alpha_s = alpha_s / 2;
    }
  }
};
template<class Var, class Var2>
void eq_var(const std::string & what, const Var & a, const Var2 & b)
{
  eq_list(what + ": x", a.x_list, b.x_list);
  eq_list(what + ": u", a.u_list, b.u_list);
  eq_list(what + ": lambda", a.lambda_list, b.lambda_list);
  eq_list(what + ": s", a.s_list, b.s_list);
  eq_list(what + ": nu", a.nu_list, b.nu_list);
}
#define FMPC_DISPATCH(CALL, ...)                       \
  std::string c_ = H::case_base();                    \
  if(H::starts(c_, "t_")) c_ = c_.substr(2);          \
  constexpr int D_ = Eigen::Dynamic;                  \
  if(c_ == "x1u1g1") CALL<1, 1, 1>(__VA_ARGS__);      \
  if(c_ == "x1u1g0") CALL<1, 1, 0>(__VA_ARGS__);      \
  if(c_ == "x2u1g2") CALL<2, 1, 2>(__VA_ARGS__);      \
  if(c_ == "x2u2g1") CALL<2, 2, 1>(__VA_ARGS__);      \
  if(c_ == "x1u2g0") CALL<1, 2, 0>(__VA_ARGS__);      \
  if(c_ == "x1udgd") CALL<1, D_, D_>(__VA_ARGS__);    \
  if(c_ == "x2u1gd") CALL<2, 1, D_>(__VA_ARGS__);     \
  if(c_ == "x1udg1") CALL<1, D_, 1>(__VA_ARGS__);
} // namespace H

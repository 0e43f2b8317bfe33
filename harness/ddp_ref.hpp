// Reference of the documented iLQR/DDP algorithm (Tassa et al.), written independently of DDPSolver.hpp.
#pragma once
#include "ddp.hpp"
#include "linalg.hpp"

namespace H
{

// Gaussian elimination on a positive definite matrix (pivots = ratios of leading principal minors).
// Returns false when the matrix is not positive definite.
inline bool pd_solve(Mat A, Mat B, Mat & X)
{
  int n = A.rows();
  for(int k = 0; k < n; k++)
  {
    if(A(k, k) <= 0) return false;
    for(int i = k + 1; i < n; i++)
    {
      double m = A(i, k) / A(k, k);
      for(int j = k; j < n; j++) A(i, j) = A(i, j) - m * A(k, j);
      for(int j = 0; j < B.cols(); j++) B(i, j) = B(i, j) - m * B(k, j);
    }
  }
  X.resize(n, B.cols());
  for(int j = 0; j < B.cols(); j++)
    for(int i = n - 1; i >= 0; i--)
    {
      double s = B(i, j);
      for(int k = i + 1; k < n; k++) s = s - A(i, k) * X(k, j);
      X(i, j) = s / A(i, i);
    }
  return true;
}
template<int SD, int ID>
struct RefDDP
{
  using Solver = nmpc_ddp::DDPSolver<SD, ID>;
  using P = UFProblem<SD, ID>;
  using SV = typename P::SV;
  using UV = typename P::UV;
  struct Tr
  {
    int iter = 0;
    double cost = 0, lambda = 0, dlambda = 0, alpha = 0, k_rel_norm = 0, actual = 0, expected = 0, ratio = 0;
    bool reached_gain = false, reached_search = false;
  };
  const P & p;
  const typename Solver::Configuration & c;
  double t0;
  std::function<std::array<UV, 2>(double)> lim;
  std::vector<SV> x;
  std::vector<UV> u;
  std::vector<double> cost;
  std::vector<Tr> trace;
  std::vector<Vec> k;
  std::vector<Mat> K;
  double dv1 = 0, dv2 = 0;
  double lambda = 0, dlambda = 0;
  int retval = 0;
  int retries = 0;

  RefDDP(const P & p_, const typename Solver::Configuration & c_, double t0_) : p(p_), c(c_), t0(t0_) {}
  double time(int i) const
  {
    return t0 + i * p.dt();
  }
  static double total(const std::vector<double> & v)
  {
    double s = 0;
    for(auto & e : v) s = s + e;
    return s;
  }
  void roll(const std::vector<UV> & ul, std::vector<SV> & xs, std::vector<double> & cs, const SV & x0)
  {
    int n = c.horizon_steps;
    xs.assign(n + 1, x0);
    cs.assign(n + 1, 0);
    for(int i = 0; i < n; i++)
    {
      xs[i + 1] = p.stateEq(time(i), xs[i], ul[i]);
      cs[i] = p.runningCost(time(i), xs[i], ul[i]);
    }
    cs[n] = p.terminalCost(time(n), xs[n]);
  }
  bool backward()
  {
    int n = c.horizon_steps;
    SV vx;
    typename P::B::StateStateDimMatrix vxx;
    p.calcTerminalCostDeriv(time(n), x[n], vx, vxx);
    Vec Vx = vx;
    Mat Vxx = vxx;
    k.assign(n, Vec());
    K.assign(n, Mat());
    dv1 = dv2 = 0;
    for(int i = n - 1; i >= 0; i--)
    {
      int m = u[i].size();
      typename P::B::StateStateDimMatrix fx, lxx;
      typename P::B::StateInputDimMatrix fu(SD, m), lxu(SD, m);
      typename P::B::InputInputDimMatrix luu(m, m);
      SV lx;
      UV lu(m);
      p.calcStateEqDeriv(time(i), x[i], u[i], fx, fu);
      p.calcRunningCostDeriv(time(i), x[i], u[i], lx, lu, lxx, luu, lxu);
      Mat A = fx, B = fu;
      Vec Qx = Vec(lx) + A.transpose() * Vx;
      Vec Qu = Vec(lu) + B.transpose() * Vx;
      Mat Qxx = Mat(lxx) + A.transpose() * Vxx * A;
      Mat Quu = Mat(luu) + B.transpose() * Vxx * B;
      Mat Qux = Mat(lxu).transpose() + B.transpose() * Vxx * A;
      Mat QuuR = Quu, QuxR = Qux;
      if(c.reg_type == 1)
        for(int j = 0; j < m; j++) QuuR(j, j) += lambda;
      if(c.reg_type == 2)
      {
        QuuR += lambda * (B.transpose() * B);
        QuxR += lambda * (B.transpose() * A);
      }
      Vec kk = Vec::Zero(m);
      Mat KK = Mat::Zero(m, SD);
      if(m > 0)
      {
        if(!c.with_input_constraint)
        {
          Mat rhs(m, 1 + SD), sol;
          rhs.col(0) = -Qu;
          rhs.rightCols(SD) = -QuxR;
          if(!pd_solve(QuuR, rhs, sol)) return false;
          kk = sol.col(0);
          KK = sol.rightCols(SD);
        }
        else
        {
          if(m != 1)
          {
            box_gains(QuuR, Qu, QuxR, lim(time(i)), u[i], kk, KK);
          }
          else
          {
          // scalar input: the box-constrained minimiser is the clamped Newton point
          if(QuuR(0, 0) <= 0) return false;
          auto l = lim(time(i));
          double lo = l[0][0] - u[i][0], hi = l[1][0] - u[i][0];
          double z = -Qu(0) / QuuR(0, 0);
          bool fixed = false;
          if(z < lo)
          {
            z = lo;
            fixed = true;
          }
          else if(z > hi)
          {
            z = hi;
            fixed = true;
          }
          kk(0) = z;
          if(!fixed) KK = -QuxR / QuuR(0, 0);
          }
        }
      }
      for(int j = 0; j < m; j++) dv1 += kk(j) * Qu(j);
      for(int j = 0; j < m; j++)
        for(int l = 0; l < m; l++) dv2 += kk(j) * Quu(j, l) * kk(l) / 2;
      // value function of the closed loop  u = k + K dx  (full form, valid for any gains)
      Vec nVx = Qx + KK.transpose() * (Quu * kk) + KK.transpose() * Qu + Qux.transpose() * kk;
      Mat nVxx = Qxx + KK.transpose() * Quu * KK + KK.transpose() * Qux + Qux.transpose() * KK;
      Vx = nVx;
      Vxx = (nVxx + nVxx.transpose()) / 2;
      k[i] = kk;
      K[i] = KK;
    }
    return true;
  }
  // Box-constrained minimiser of a positive definite quadratic by enumeration of the active sets. A component counts as fixed
  // if it is at a limit and the gradient points outward; the feedback acts on the others.
  void box_gains(const Mat & H, const Vec & g, const Mat & QuxR, const std::array<UV, 2> & l, const UV & ui, Vec & kk, Mat & KK)
  {
    int m = g.size(), sets = 1;
    for(int j = 0; j < m; j++) sets *= 3;
    for(int a = 0; a < sets; a++)
    {
      std::vector<int> st(m), fr;
      for(int j = 0, b = a; j < m; j++, b /= 3)
      {
        st[j] = b % 3;
        if(st[j] == 0) fr.push_back(j);
      }
      Vec z = Vec::Zero(m);
      for(int j = 0; j < m; j++)
        if(st[j]) z(j) = l[st[j] - 1][j] - ui[j];
      int f = fr.size();
      Mat sol(f, 1 + SD);
      if(f > 0)
      {
        Mat Hf(f, f), rhs(f, 1 + SD);
        Vec gz = g + H * z;
        for(int p = 0; p < f; p++)
        {
          for(int q = 0; q < f; q++) Hf(p, q) = H(fr[p], fr[q]);
          rhs(p, 0) = -gz(fr[p]);
          for(int q = 0; q < SD; q++) rhs(p, 1 + q) = -QuxR(fr[p], q);
        }
        if(!pd_solve(Hf, rhs, sol)) throw std::logic_error("reference: limits with indefinite Hessian");
        for(int p = 0; p < f; p++) z(fr[p]) = sol(p, 0);
      }
      Vec gr = g + H * z;
      bool ok = true;
      for(int j = 0; j < m && ok; j++)
      {
        if(st[j] == 0) ok = z(j) >= l[0][j] - ui[j] && z(j) <= l[1][j] - ui[j];
        if(st[j] == 1) ok = gr(j) > 0;
        if(st[j] == 2) ok = gr(j) < 0;
      }
      if(!ok) continue;
      kk = z;
      KK = Mat::Zero(m, SD);
      for(int p = 0; p < f; p++)
        for(int q = 0; q < SD; q++) KK(fr[p], q) = sol(p, 1 + q);
      V::cover("box gains with " + std::to_string(f) + " of " + std::to_string(m) + " inputs free" + (f == 1 ? (st[0] ? " (not the first)" : " (the first)") : ""));
      return;
    }
    throw std::logic_error("reference: no active set");
  }
  void up()
  {
    double a = dlambda * c.lambda_factor;
    dlambda = a > c.lambda_factor ? a : c.lambda_factor;
    double b = lambda * dlambda;
    lambda = b > c.lambda_min ? b : c.lambda_min;
  }
  void down()
  {
    double a = dlambda / c.lambda_factor, b = 1 / c.lambda_factor;
    dlambda = a < b ? a : b;
    if(lambda >= c.lambda_min)
      lambda = lambda * dlambda;
    else
      lambda = 0;
  }
  int once(int iter)
  {
    int n = c.horizon_steps;
    trace.push_back(Tr());
    Tr & tr = trace.back();
    tr.iter = iter;
    auto fin = [&](int r) {
      tr.cost = total(cost);
      tr.lambda = lambda;
      tr.dlambda = dlambda;
      return r;
    };
    while(!backward())
    {
      retries++;
      up();
      if(lambda > c.lambda_max) return fin(-1);
    }
    double kn = 0;
    for(int i = 0; i < n; i++)
    {
      double v = k[i].norm() / (u[i].norm() + 1);
      if(v > kn) kn = v;
    }
    tr.k_rel_norm = kn;
    tr.reached_gain = true;
    if(kn < c.k_rel_norm_thre && lambda < c.lambda_thre) return fin(1);
    bool ok = false;
    std::vector<SV> nx;
    std::vector<UV> nu;
    std::vector<double> nc;
    for(int a = 0; a < c.alpha_list.size() && !ok; a++)
    {
      double al = c.alpha_list[a];
      nx.assign(n + 1, x[0]);
      nu = u;
      nc.assign(n + 1, 0);
      for(int i = 0; i < n; i++)
      {
        Vec dx = nx[i] - x[i];
        Vec un = Vec(u[i]) + al * k[i] + K[i] * dx;
        if(c.with_input_constraint)
        {
          auto l = lim(time(i));
          for(int j = 0; j < un.size(); j++)
          {
            if(un(j) > l[1][j]) un(j) = l[1][j];
            if(un(j) < l[0][j]) un(j) = l[0][j];
          }
        }
        nu[i] = un;
        nx[i + 1] = p.stateEq(time(i), nx[i], nu[i]);
        nc[i] = p.runningCost(time(i), nx[i], nu[i]);
      }
      nc[n] = p.terminalCost(time(n), nx[n]);
      tr.alpha = al;
      tr.actual = total(cost) - total(nc);
      tr.expected = -al * (dv1 + al * dv2);
      if(tr.expected < 0)
        tr.ratio = tr.actual >= 0 ? 1 : -1;
      else
        tr.ratio = tr.actual / tr.expected;
      tr.reached_search = true;
      if(tr.ratio > c.cost_update_ratio_thre) ok = true;
    }
    int r = 0;
    if(ok)
    {
      x = nx;
      u = nu;
      cost = nc;
      if(tr.actual < c.cost_update_thre) r = 1;
      down();
    }
    else
    {
      up();
      if(lambda > c.lambda_max) r = -1;
    }
    return fin(r);
  }
  bool solve(const SV & x0, const std::vector<UV> & u0)
  {
    lambda = c.initial_lambda;
    dlambda = c.initial_dlambda;
    u = u0;
    roll(u, x, cost, x0);
    trace.clear();
    Tr tr;
    tr.cost = total(cost);
    tr.lambda = lambda;
    tr.dlambda = dlambda;
    trace.push_back(tr);
    retval = 0;
    for(int it = 1; it <= c.max_iter; it++)
    {
      retval = once(it);
      if(retval) break;
    }
    return retval == 1;
  }
};
} // namespace H

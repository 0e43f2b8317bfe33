// "Every problem" instances, shared by the DDP and FMPC harnesses.
#pragma once
#include "common.hpp"

#include <nmpc_ddp/DDPProblem.h>

namespace H
{
enum Deriv
{
  UFD, // derivatives are uninterpreted functions of (t, x, u)
  CONSTD, // derivatives are fixed numbers per time step
  GRADUF, // cost gradients are uninterpreted functions, the matrices are fixed numbers per time step
};
// "Every problem": the state equation and the costs are uninterpreted functions of their arguments.
// dims: input dimension per step (dynamic input dimension only).
template<int SD, int ID, class Base = nmpc_ddp::DDPProblem<SD, ID>>
struct UFProblem : Base
{
  using B = Base;
  using SV = typename B::StateDimVector;
  using UV = typename B::InputDimVector;
  double t0;
  std::vector<int> dims;
  Deriv deriv;
  double luu_shift = 0; // subtracted from the diagonal of the fixed Luu (to provoke indefinite Quu)
  int shift_step = 0; // at this step
  int salt = 0;
  int reset = 0; // the fixed Fx vanishes at every reset-th step (keeps the exact Riccati recursion short)
  UFProblem(double dt, double t0_, Deriv dv = CONSTD, std::vector<int> d = {}) : B(dt), t0(t0_), dims(d), deriv(dv) {}
  using B::inputDim;
  int idx(const double & t) const
  {
    for(int i = 0; i < 64; i++)
      if(t == t0 + i * this->dt()) return i;
    return 63;
  }
  int inputDim(double t) const override
  {
    if(ID != Eigen::Dynamic) return ID;
    int i = idx(t);
    return i < (int)dims.size() ? dims[i] : (dims.empty() ? 0 : dims.back() + 1);
  }
  std::vector<double> args(const double & t, const SV & x, const UV & u) const
  {
    std::vector<double> a{t};
    append(a, x);
    append(a, u);
    return a;
  }
  std::vector<double> args(const double & t, const SV & x) const
  {
    std::vector<double> a{t};
    append(a, x);
    return a;
  }
  template<class M>
  void uf(const std::string & n, const std::vector<double> & a, M && m, bool symm = false) const
  {
    for(int i = 0; i < m.rows(); i++)
      for(int j = 0; j < m.cols(); j++)
      {
        if(symm && j > i) continue;
        m(i, j) = V::ufun(nm(n, i, j), a);
        if(symm) m(j, i) = m(i, j);
      }
  }
  SV stateEq(double t, const SV & x, const UV & u) const override
  {
    SV r;
    uf("f", args(t, x, u), r);
    return r;
  }
  double runningCost(double t, const SV & x, const UV & u) const override
  {
    return V::ufun("L", args(t, x, u));
  }
  double terminalCost(double t, const SV & x) const override
  {
    return V::ufun("phi", args(t, x));
  }
  void calcStateEqDeriv(double t,
                        const SV & x,
                        const UV & u,
                        Eigen::Ref<typename B::StateStateDimMatrix> fx,
                        Eigen::Ref<typename B::StateInputDimMatrix> fu) const override
  {
    if(deriv != UFD)
    {
      int k = idx(t);
      fill_num("fx", fx, k + salt);
      if(reset && k % reset == reset - 1) fx.setZero();
      fill_num("fu", fu, k + salt);
      return;
    }
    uf("fx", args(t, x, u), fx);
    uf("fu", args(t, x, u), fu);
  }
  void calcStateEqDeriv(double t,
                        const SV & x,
                        const UV & u,
                        Eigen::Ref<typename B::StateStateDimMatrix> fx,
                        Eigen::Ref<typename B::StateInputDimMatrix> fu,
                        std::vector<typename B::StateStateDimMatrix> &,
                        std::vector<typename B::InputInputDimMatrix> &,
                        std::vector<typename B::StateInputDimMatrix> &) const override
  {
    calcStateEqDeriv(t, x, u, fx, fu);
  }
  void calcRunningCostDeriv(double t, const SV & x, const UV & u, Eigen::Ref<SV> lx, Eigen::Ref<UV> lu) const override
  {
    if(deriv == CONSTD)
    {
      int k = idx(t);
      fill_num("Lx", lx, k + salt);
      fill_num("Lu", lu, k + salt);
      return;
    }
    uf("Lx", args(t, x, u), lx);
    uf("Lu", args(t, x, u), lu);
  }
  void calcRunningCostDeriv(double t,
                            const SV & x,
                            const UV & u,
                            Eigen::Ref<SV> lx,
                            Eigen::Ref<UV> lu,
                            Eigen::Ref<typename B::StateStateDimMatrix> lxx,
                            Eigen::Ref<typename B::InputInputDimMatrix> luu,
                            Eigen::Ref<typename B::StateInputDimMatrix> lxu) const override
  {
    calcRunningCostDeriv(t, x, u, lx, lu);
    if(deriv != UFD)
    {
      int k = idx(t);
      fill_pd("Lxx", lxx, k + salt);
      fill_pd("Luu", luu, k + salt);
      if(k == shift_step)
        for(int i = 0; i < luu.rows(); i++) luu(i, i) -= luu_shift;
      fill_num("Lxu", lxu, k + salt);
      for(int i = 0; i < lxu.rows(); i++)
        for(int j = 0; j < lxu.cols(); j++) lxu(i, j) /= 8;
      return;
    }
    uf("Lxx", args(t, x, u), lxx, true);
    uf("Luu", args(t, x, u), luu, true);
    uf("Lxu", args(t, x, u), lxu);
  }
  void calcTerminalCostDeriv(double t, const SV & x, Eigen::Ref<SV> vx) const override
  {
    if(deriv == CONSTD)
    {
      fill_num("phix", vx, idx(t) + salt);
      return;
    }
    uf("phix", args(t, x), vx);
  }
  void calcTerminalCostDeriv(double t,
                             const SV & x,
                             Eigen::Ref<SV> vx,
                             Eigen::Ref<typename B::StateStateDimMatrix> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    if(deriv != UFD)
    {
      fill_pd("phixx", vxx, idx(t) + salt);
      return;
    }
    uf("phixx", args(t, x), vxx, true);
  }
};

template<int SD, int ID>
std::vector<typename UFProblem<SD, ID>::UV> input_list(const std::string & name, int n, const std::vector<int> & dims)
{
  std::vector<typename UFProblem<SD, ID>::UV> ul(n);
  for(int i = 0; i < n; i++)
  {
    if(ID == Eigen::Dynamic) ul[i].resize(dims[i]);
    fill(nm(name, i), ul[i]);
  }
  return ul;
}
inline Deriv deriv_opt()
{
  int k = opt("ufd", 0);
  return k == 1 ? UFD : k == 2 ? GRADUF : CONSTD;
}
inline std::vector<int> dims_for(int sel, int n)
{
  static const int t[5][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 0, 2, 1, 0, 1, 2, 0}, {0, 1, 0, 2, 1, 1, 0, 0}, {2, 1, 1, 0, 2, 0, 1, 1}, {1, 0, 1, 1, 0, 0, 1, 1}};
  std::vector<int> r;
  for(int i = 0; i < n; i++) r.push_back(t[sel][i % 8]);
  return r;
}
} // namespace H

// Independent reference of GMRES: minimiser of the residual over the Krylov space, by normal equations.
#pragma once
#include "linalg.hpp"
namespace H
{
struct Sys
{
  Mat A;
  Vec b, x0;
  double eps;
};
// k-th GMRES iterate by the normal equations of the (unnormalised) Krylov basis; false: basis exhausted before k
inline bool ref_iter(const Sys & S, int k, Vec & x)
{
  x = S.x0;
  if(k == 0) return true;
  Vec r = S.b - mul(S.A, S.x0);
  int n = r.size();
  Mat K(n, k), M;
  Vec v = r;
  for(int j = 0; j < k; j++)
  {
    for(int i = 0; i < n; i++) K(i, j) = v[i];
    v = mul(S.A, v);
  }
  M = mul(S.A, K);
  Mat y, R(k, 1);
  Mat N = mul(M.transpose(), M);
  for(int j = 0; j < k; j++)
  {
    double s = 0;
    for(int i = 0; i < n; i++) s += M(i, j) * r[i];
    R(j, 0) = s;
  }
  if(!lin_solve(N, R, y)) return false;
  for(int i = 0; i < n; i++)
    for(int j = 0; j < k; j++) x[i] += K(i, j) * y(j, 0);
  return true;
}
} // namespace H

#pragma once
#include "common.hpp"
namespace H
{
using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::Matrix<double, Eigen::Dynamic, 1>;
// plain loops: also right for empty operands
template<class A, class B>
Eigen::Matrix<double, Eigen::Dynamic, B::ColsAtCompileTime == 1 ? 1 : Eigen::Dynamic> mul(const A & a, const B & b)
{
  Eigen::Matrix<double, Eigen::Dynamic, B::ColsAtCompileTime == 1 ? 1 : Eigen::Dynamic> r(a.rows(), b.cols());
  for(int i = 0; i < a.rows(); i++)
    for(int j = 0; j < b.cols(); j++)
    {
      double s = 0;
      for(int k = 0; k < a.cols(); k++) s += a(i, k) * b(k, j);
      r(i, j) = s;
    }
  return r;
}
inline double dot(const Vec & a, const Vec & b)
{
  double s = 0;
  for(int i = 0; i < a.size(); i++) s += a[i] * b[i];
  return s;
}
inline double sq(const Vec & a)
{
  return dot(a, a);
}
// Gaussian elimination, rows swapped only when a pivot is zero
inline bool lin_solve(Mat A, Mat B, Mat & X)
{
  int n = A.rows();
  for(int k = 0; k < n; k++)
  {
    int r = k;
    while(r < n && A(r, k) == 0) r++;
    if(r == n) return false;
    if(r != k)
    {
      for(int j = 0; j < n; j++) std::swap(A(r, j), A(k, j));
      for(int j = 0; j < B.cols(); j++) std::swap(B(r, j), B(k, j));
    }
    for(int i = k + 1; i < n; i++)
    {
      double m = A(i, k) / A(k, k);
      for(int j = k; j < n; j++) A(i, j) = A(i, j) - m * A(k, j);
      for(int j = 0; j < B.cols(); j++) B(i, j) = B(i, j) - m * B(k, j);
    }
  }
  X.resize(n, B.cols());
  for(int j = 0; j < B.cols(); j++)
    for(int i = n - 1; i >= 0; i--)
    {
      double s = B(i, j);
      for(int k = i + 1; k < n; k++) s = s - A(i, k) * X(k, j);
      X(i, j) = s / A(i, i);
    }
  return true;
}
} // namespace H

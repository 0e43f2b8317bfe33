#pragma once
#include <prelude.hpp>

namespace H
{
inline std::string nm(const std::string & s, int i)
{
  return s + "_" + std::to_string(i);
}
inline std::string nm(const std::string & s, int i, int j)
{
  return s + "_" + std::to_string(i) + "_" + std::to_string(j);
}
template<class M>
void fill(const std::string & name, M && m)
{
  for(int i = 0; i < m.rows(); i++)
    for(int j = 0; j < m.cols(); j++) m(i, j) = V::input(nm(name, i, j));
}
template<class M>
void fill_sym(const std::string & name, M && m)
{
  for(int i = 0; i < m.rows(); i++)
    for(int j = 0; j <= i; j++) m(i, j) = m(j, i) = V::input(nm(name, i, j));
}
// small fixed numbers, different for every name/index
inline double num(const std::string & name, int i = 0, int j = 0, int salt = 0)
{
  unsigned h = 2166136261u;
  for(char c : name) h = (h ^ (unsigned char)c) * 16777619u;
  for(int v : {i + 1, j + 7, salt + 13})
  {
    h = (h ^ (unsigned)v) * 16777619u;
    h ^= h >> 13;
  }
  static const int t[] = {-4, -3, -2, -1, 1, 2, 3, 4, -5, 5};
  return double(t[h % 10]) / 4;
}
template<class M>
void fill_num(const std::string & name, M && m, int salt = 0)
{
  for(int i = 0; i < m.rows(); i++)
    for(int j = 0; j < m.cols(); j++) m(i, j) = num(name, i, j, salt);
}
// symmetric positive definite with fixed entries (diagonally dominant)
template<class M>
void fill_pd(const std::string & name, M && m, int salt = 0, double scale = 1)
{
  for(int i = 0; i < m.rows(); i++)
    for(int j = 0; j <= i; j++)
    {
      double v = num(name, i, j, salt) / 4;
      if(i == j) v = 1 + v * v + m.rows() / double(2);
      m(i, j) = m(j, i) = scale * v;
    }
}
template<class M>
void append(std::vector<double> & v, const M & m)
{
  for(int i = 0; i < m.rows(); i++)
    for(int j = 0; j < m.cols(); j++) v.push_back(m(i, j));
}
template<class A, class B>
void eq(const std::string & label, const A & a, const B & b)
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) V::fail(label + " (dimension)");
  for(int i = 0; i < a.rows(); i++)
    for(int j = 0; j < a.cols(); j++) V::require_eq(label, a(i, j), b(i, j));
}
template<class A, class B>
void eq_list(const std::string & label, const A & a, const B & b)
{
  if(a.size() != b.size()) V::fail(label + " (length)");
  for(size_t i = 0; i < a.size(); i++) eq(label, a[i], b[i]);
}
inline bool starts(const std::string & s, const std::string & p)
{
  return s.rfind(p, 0) == 0;
}
// "name.k1=v1.k2=v2": integer option of the current case
inline int opt(const std::string & key, int dflt)
{
  std::string c = V::case_name() + ".";
  size_t k = c.find("." + key + "=");
  if(k == std::string::npos) return dflt;
  return std::atoi(c.c_str() + k + key.size() + 2);
}
inline std::string case_base()
{
  std::string c = V::case_name();
  return c.substr(0, c.find('.'));
}
} // namespace H

// Reading back what the code wrote (numbers are written with 6 digits when they are not symbolic).
#pragma once
#include "common.hpp"
namespace H
{
inline std::vector<std::vector<std::string>> rows_of(const std::string & text)
{
  std::vector<std::vector<std::string>> r;
  std::istringstream is(text);
  std::string line;
  while(std::getline(is, line))
  {
    for(char & c : line)
      if(c == ',') c = ' ';
    std::istringstream ls(line);
    std::vector<std::string> t;
    std::string w;
    while(ls >> w) t.push_back(w);
    if(!t.empty()) r.push_back(t);
  }
  return r;
}
inline void written(const std::string & label, const std::string & token, const double & v)
{
  if(token.empty()) V::fail(label + " (missing)");
  char * e = nullptr;
  (void)strtod(token.c_str(), &e);
  if(token[0] != '<' && *e) V::fail(label + " (not a number: " + token + ")");
  double w = V::parse(token);
  if(token[0] == '<' || !V::finite(w))
  {
    V::require_eq(label, w, v);
    return;
  }
  double tol = std::abs(v) * double(1e-5) + double(1e-9);
  V::require(label, V::And(w - v <= tol, v - w <= tol));
}
} // namespace H

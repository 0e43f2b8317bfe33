// symx engine: terms, rational normal forms, path exploration, SMT back end.
#include <gmpxx.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define SYMX 1
#include "symx.hpp"

namespace symx
{
using std::pair;
using std::string;
using std::vector;

// ---------------------------------------------------------------------------------------------------------------
// Terms
enum Op
{
  CONST,
  VAR,
  ADD,
  SUB,
  MUL,
  DIV,
  SQRT,
  ABS,
  FUN
};
struct Node
{
  Op op;
  int a = -1, b = -1;
  mpq_class c;
  string name; // VAR, FUN
  vector<int> args; // FUN
  int rf = -1; // interned normal form, lazily
  bool builtin = false; // FUN: exp, log, ... rather than a harness function
};
static vector<Node> N;
static std::unordered_map<string, int> node_tab;

static string key_of(const Node & n)
{
  string k = std::to_string(n.op) + ":" + std::to_string(n.a) + ":" + std::to_string(n.b);
  if(n.op == CONST) k += ":" + n.c.get_str();
  if(n.op == VAR || n.op == FUN) k += ":" + n.name;
  for(int x : n.args) k += "," + std::to_string(x);
  return k;
}
static int mk(Node n)
{
  string k = key_of(n);
  auto it = node_tab.find(k);
  if(it != node_tab.end()) return it->second;
  int id = (int)N.size();
  N.push_back(std::move(n));
  node_tab[k] = id;
  return id;
}
static int mk_const(const mpq_class & q)
{
  Node n{CONST};
  n.c = q;
  n.c.canonicalize();
  return mk(n);
}
static int mk_bin(Op op, int a, int b)
{
  if((op == ADD || op == MUL) && a > b) std::swap(a, b);
  Node n{op};
  n.a = a;
  n.b = b;
  return mk(n);
}
static bool isc(int n)
{
  return N[n].op == CONST;
}
static int t_add(int a, int b)
{
  if(isc(a) && isc(b)) return mk_const(N[a].c + N[b].c);
  if(isc(a) && N[a].c == 0) return b;
  if(isc(b) && N[b].c == 0) return a;
  return mk_bin(ADD, a, b);
}
static int t_sub(int a, int b)
{
  if(isc(a) && isc(b)) return mk_const(N[a].c - N[b].c);
  if(isc(b) && N[b].c == 0) return a;
  if(a == b) return mk_const(0);
  return mk_bin(SUB, a, b);
}
static int t_mul(int a, int b)
{
  if(isc(a) && isc(b)) return mk_const(N[a].c * N[b].c);
  if(isc(b)) std::swap(a, b);
  if(isc(a))
  {
    if(N[a].c == 0) return a;
    if(N[a].c == 1) return b;
    if(N[b].op == MUL && isc(N[b].a)) return t_mul(mk_const(N[a].c * N[N[b].a].c), N[b].b);
    if(N[b].op == MUL && isc(N[b].b)) return t_mul(mk_const(N[a].c * N[N[b].b].c), N[b].a);
  }
  return mk_bin(MUL, a, b);
}
static int t_div(int a, int b) // b known nonzero
{
  if(isc(a) && isc(b)) return mk_const(N[a].c / N[b].c);
  if(isc(a) && N[a].c == 0) return a;
  if(isc(b)) return t_mul(mk_const(1 / N[b].c), a);
  if(a == b) return mk_const(1);
  return mk_bin(DIV, a, b);
}

// ---------------------------------------------------------------------------------------------------------------
// Normal forms: polynomial over atoms / product of polynomial factors
typedef vector<pair<int, int>> Mono; // (atom, exponent) sorted
static vector<Mono> monos{{}};
static std::map<Mono, int> mono_tab{{{}, 0}};
static std::unordered_map<uint64_t, int> mono_memo;
static int mono_id(const Mono & m)
{
  auto it = mono_tab.find(m);
  if(it != mono_tab.end()) return it->second;
  int id = (int)monos.size();
  monos.push_back(m);
  mono_tab[m] = id;
  return id;
}
static int mono_mul(int a, int b)
{
  if(a == 0) return b;
  if(b == 0) return a;
  if(a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = mono_memo.find(k);
  if(it != mono_memo.end()) return it->second;
  Mono r;
  const Mono &x = monos[a], &y = monos[b];
  size_t i = 0, j = 0;
  while(i < x.size() || j < y.size())
  {
    if(j == y.size() || (i < x.size() && x[i].first < y[j].first))
      r.push_back(x[i++]);
    else if(i == x.size() || y[j].first < x[i].first)
      r.push_back(y[j++]);
    else
    {
      r.emplace_back(x[i].first, x[i].second + y[j].second);
      i++, j++;
    }
  }
  int id = mono_id(r);
  mono_memo[k] = id;
  return id;
}
typedef vector<pair<int, mpq_class>> Poly; // (mono, coeff) sorted by mono id, no zeros
struct TooBig
{
};
static size_t TERM_LIMIT = 600;
static long rf_budget = 0;

static Poly p_from(std::unordered_map<int, mpq_class> & m)
{
  Poly r;
  r.reserve(m.size());
  for(auto & kv : m)
    if(kv.second != 0) r.emplace_back(kv.first, kv.second);
  std::sort(r.begin(), r.end(), [](auto & x, auto & y) { return x.first < y.first; });
  if(r.size() > TERM_LIMIT) throw TooBig();
  return r;
}
static Poly p_add(const Poly & a, const Poly & b, const mpq_class & cb = 1)
{
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while(i < a.size() || j < b.size())
  {
    if(j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if(i == a.size() || b[j].first < a[i].first)
    {
      r.emplace_back(b[j].first, b[j].second * cb);
      j++;
    }
    else
    {
      mpq_class c = a[i].second + b[j].second * cb;
      if(c != 0) r.emplace_back(a[i].first, c);
      i++, j++;
    }
  }
  if(r.size() > TERM_LIMIT) throw TooBig();
  return r;
}
static Poly p_scale(Poly a, const mpq_class & c)
{
  if(c == 0) return {};
  for(auto & t : a) t.second *= c;
  return a;
}
static Poly p_mul(const Poly & a, const Poly & b)
{
  rf_budget -= (long)(a.size() * b.size());
  if(rf_budget < 0) throw TooBig();
  std::unordered_map<int, mpq_class> m;
  for(auto & x : a)
    for(auto & y : b) m[mono_mul(x.first, y.first)] += x.second * y.second;
  return p_from(m);
}
static bool p_isconst(const Poly & p)
{
  return p.empty() || (p.size() == 1 && p[0].first == 0);
}
static int lexcmp(const Mono & a, const Mono & b) // >0: a larger; lex with smaller atom id = larger variable
{
  size_t i = 0, j = 0;
  while(i < a.size() || j < b.size())
  {
    if(j == b.size()) return 1;
    if(i == a.size()) return -1;
    if(a[i].first != b[j].first) return a[i].first < b[j].first ? 1 : -1;
    if(a[i].second != b[j].second) return a[i].second > b[j].second ? 1 : -1;
    i++, j++;
  }
  return 0;
}
static bool mono_div(const Mono & a, const Mono & b, Mono & r) // a / b
{
  r.clear();
  size_t i = 0;
  for(auto & t : b)
  {
    while(i < a.size() && a[i].first < t.first) r.push_back(a[i++]);
    if(i == a.size() || a[i].first != t.first || a[i].second < t.second) return false;
    if(a[i].second > t.second) r.emplace_back(t.first, a[i].second - t.second);
    i++;
  }
  while(i < a.size()) r.push_back(a[i++]);
  return true;
}
struct LexLess
{
  bool operator()(int x, int y) const
  {
    return lexcmp(monos[x], monos[y]) > 0;
  }
};
static bool p_divexact(const Poly & n, const Poly & d, Poly & q)
{
  if(n.empty())
  {
    q.clear();
    return true;
  }
  if(n.size() * d.size() > 60000) return false;
  // cheap rejection
  std::map<int, mpq_class, LexLess> r;
  for(auto & t : n) r.insert(t);
  int ld = d[0].first;
  mpq_class lc = d[0].second;
  for(auto & t : d)
    if(lexcmp(monos[t.first], monos[ld]) > 0)
    {
      ld = t.first;
      lc = t.second;
    }
  // the trailing monomial must divide as well
  {
    int td = d[0].first;
    for(auto & t : d)
      if(lexcmp(monos[t.first], monos[td]) < 0) td = t.first;
    Mono tmp;
    if(!mono_div(monos[r.rbegin()->first], monos[td], tmp)) return false;
  }
  std::unordered_map<int, mpq_class> qq;
  size_t steps = 0;
  while(!r.empty())
  {
    auto it = r.begin();
    Mono m;
    if(!mono_div(monos[it->first], monos[ld], m)) return false;
    if(++steps > n.size() + 200) return false;
    mpq_class c = it->second / lc;
    int mid = mono_id(m);
    qq[mid] += c;
    for(auto & t : d)
    {
      int k = mono_mul(t.first, mid);
      auto f = r.find(k);
      if(f == r.end())
        r.emplace(k, -c * t.second);
      else
      {
        f->second -= c * t.second;
        if(f->second == 0) r.erase(f);
      }
    }
    if(r.size() > 4 * TERM_LIMIT) return false;
  }
  q = p_from(qq);
  return true;
}

struct RF
{
  Poly num;
  vector<pair<int, int>> den; // (factor id, exp) sorted
  bool operator<(const RF & o) const
  {
    return std::tie(den, num) < std::tie(o.den, o.num);
  }
};
static vector<Poly> factors;
static std::map<Poly, int> factor_tab;
static int factor_id(const Poly & p)
{
  auto it = factor_tab.find(p);
  if(it != factor_tab.end()) return it->second;
  int id = (int)factors.size();
  factors.push_back(p);
  factor_tab[p] = id;
  return id;
}
static vector<RF> rfs;
static std::map<RF, int> rf_tab;
static int rf_intern(const RF & r)
{
  auto it = rf_tab.find(r);
  if(it != rf_tab.end()) return it->second;
  int id = (int)rfs.size();
  rfs.push_back(r);
  rf_tab[r] = id;
  return id;
}
static int canon(int n);
static RF rf_mul(const RF & a, const RF & b);
static RF rf_add(const RF & a, const RF & b, const mpq_class & cb);
static RF rf_inv(const RF & a);

static int single_atom(const Poly & p) // factor that is exactly one atom^1, monic
{
  if(p.size() == 1 && monos[p[0].first].size() == 1 && monos[p[0].first][0].second == 1 && p[0].second == 1)
    return monos[p[0].first][0].first;
  return -1;
}
static void rf_cancel(RF & r)
{
  if(r.num.empty())
  {
    r.den.clear();
    return;
  }
  for(auto & f : r.den)
  {
    while(f.second > 0)
    {
      Poly q;
      if(p_divexact(r.num, factors[f.first], q))
      {
        r.num = q;
        f.second--;
      }
      else
        break;
    }
  }
  r.den.erase(std::remove_if(r.den.begin(), r.den.end(), [](auto & f) { return f.second == 0; }), r.den.end());
}
static Poly fpow(int f, int e)
{
  Poly r{{0, 1}};
  for(int i = 0; i < e; i++) r = p_mul(r, factors[f]);
  return r;
}
static bool root(int at)
{
  return N[at].op == SQRT || N[at].op == ABS;
}
static RF root_sq(int at) // the square of a root atom
{
  RF r = rfs[canon(N[at].a)];
  return N[at].op == SQRT ? r : rf_mul(r, r);
}
// reduce even powers of square roots
static RF rf_reduce(const Poly & p, const vector<pair<int, int>> & den)
{
  bool need = false;
  for(auto & t : p)
    for(auto & ae : monos[t.first])
      if(ae.second >= 2 && root(ae.first)) need = true;
  for(auto & f : den)
  {
    int at = single_atom(factors[f.first]);
    if(at >= 0 && root(at) && f.second >= 2) need = true;
  }
  RF out;
  if(!need)
  {
    out.num = p;
    out.den = den;
    return out;
  }
  RF dinv;
  dinv.num = {{0, 1}};
  for(auto & f : den)
  {
    int at = single_atom(factors[f.first]);
    if(at >= 0 && root(at) && f.second >= 2)
    {
      RF inv = rf_inv(root_sq(at));
      for(int i = 0; i < f.second / 2; i++) dinv = rf_mul(dinv, inv);
      if(f.second % 2) dinv.den.push_back({f.first, 1});
      std::sort(dinv.den.begin(), dinv.den.end());
      // merge duplicates
      vector<pair<int, int>> md;
      for(auto & x : dinv.den)
        if(!md.empty() && md.back().first == x.first)
          md.back().second += x.second;
        else
          md.push_back(x);
      dinv.den = md;
    }
    else
    {
      RF one;
      one.num = {{0, 1}};
      one.den = {f};
      dinv = rf_mul(dinv, one);
    }
  }
  RF acc;
  Poly plain;
  for(auto & t : p)
  {
    Mono rest;
    vector<pair<int, int>> ev;
    for(auto & ae : monos[t.first])
      if(ae.second >= 2 && root(ae.first))
      {
        ev.emplace_back(ae.first, ae.second / 2);
        if(ae.second % 2) rest.emplace_back(ae.first, 1);
      }
      else
        rest.push_back(ae);
    if(ev.empty())
    {
      plain.push_back(t);
      continue;
    }
    RF x;
    x.num = {{mono_id(rest), t.second}};
    for(auto & e : ev)
      for(int i = 0; i < e.second; i++) x = rf_mul(x, root_sq(e.first));
    acc = rf_add(acc, x, 1);
  }
  RF pl;
  pl.num = plain;
  acc = rf_add(acc, pl, 1);
  return rf_mul(acc, dinv);
}
static RF rf_mul(const RF & a, const RF & b)
{
  if(a.num.empty()) return a;
  if(b.num.empty()) return b;
  // cross-cancel first
  RF x = a, y = b;
  for(auto & f : x.den)
    while(f.second > 0)
    {
      Poly q;
      if(!p_divexact(y.num, factors[f.first], q)) break;
      y.num = q;
      f.second--;
    }
  for(auto & f : y.den)
    while(f.second > 0)
    {
      Poly q;
      if(!p_divexact(x.num, factors[f.first], q)) break;
      x.num = q;
      f.second--;
    }
  std::map<int, int> d;
  for(auto & f : x.den)
    if(f.second) d[f.first] += f.second;
  for(auto & f : y.den)
    if(f.second) d[f.first] += f.second;
  Poly n = p_mul(x.num, y.num);
  return rf_reduce(n, vector<pair<int, int>>(d.begin(), d.end()));
}
static RF rf_add(const RF & a, const RF & b, const mpq_class & cb)
{
  if(b.num.empty()) return a;
  if(a.num.empty())
  {
    RF r = b;
    r.num = p_scale(r.num, cb);
    return r;
  }
  if(a.den == b.den)
  {
    RF r;
    r.num = p_add(a.num, b.num, cb);
    r.den = a.den;
    rf_cancel(r);
    return r;
  }
  std::map<int, int> l, da(a.den.begin(), a.den.end()), db(b.den.begin(), b.den.end());
  for(auto & f : da) l[f.first] = std::max(l[f.first], f.second);
  for(auto & f : db) l[f.first] = std::max(l[f.first], f.second);
  Poly na = a.num, nb = b.num;
  for(auto & f : l)
  {
    int ea = f.second - (da.count(f.first) ? da[f.first] : 0), eb = f.second - (db.count(f.first) ? db[f.first] : 0);
    if(ea) na = p_mul(na, fpow(f.first, ea));
    if(eb) nb = p_mul(nb, fpow(f.first, eb));
  }
  RF r = rf_reduce(p_add(na, nb, cb), vector<pair<int, int>>(l.begin(), l.end()));
  rf_cancel(r);
  return r;
}
static RF rf_inv(const RF & a)
{
  RF r;
  r.num = {{0, 1}};
  for(auto & f : a.den) r.num = p_mul(r.num, fpow(f.first, f.second));
  Poly p = a.num;
  mpq_class c = 1;
  std::map<int, int> d;
  // monomial content
  {
    Mono g = monos[p[0].first];
    for(auto & t : p)
    {
      Mono h;
      for(auto & x : g)
        for(auto & y : monos[t.first])
          if(x.first == y.first) h.emplace_back(x.first, std::min(x.second, y.second));
      g = h;
    }
    if(!g.empty())
    {
      for(auto & t : p)
      {
        Mono q;
        mono_div(monos[t.first], g, q);
        t.first = mono_id(q);
      }
      std::sort(p.begin(), p.end(), [](auto & x, auto & y) { return x.first < y.first; });
      for(auto & ae : g) d[factor_id({{mono_id({{ae.first, 1}}), 1}})] += ae.second;
    }
  }
  // known factors
  for(size_t f = 0; f < factors.size() && !p_isconst(p); f++)
  {
    if(factors[f].size() > p.size() || factors[f].size() < 2) continue;
    Poly q;
    while(!p_isconst(p) && p_divexact(p, factors[f], q))
    {
      p = q;
      d[(int)f]++;
    }
  }
  if(p_isconst(p))
    c = p[0].second;
  else
  {
    c = p[0].second;
    p = p_scale(p, 1 / c);
    d[factor_id(p)]++;
  }
  r.num = p_scale(r.num, 1 / c);
  RF s = rf_reduce(r.num, vector<pair<int, int>>(d.begin(), d.end()));
  rf_cancel(s);
  return s;
}
static RF rf_atom(int n)
{
  RF r;
  r.num = {{mono_id({{n, 1}}), 1}};
  return r;
}
static int canon(int n)
{
  if(N[n].rf >= 0) return N[n].rf;
  // iterative post-order to avoid deep recursion
  vector<int> st{n};
  while(!st.empty())
  {
    int x = st.back();
    if(N[x].rf >= 0)
    {
      st.pop_back();
      continue;
    }
    bool ready = true;
    auto need = [&](int c) {
      if(c >= 0 && N[c].rf < 0)
      {
        st.push_back(c);
        ready = false;
      }
    };
    if(N[x].op == ADD || N[x].op == SUB || N[x].op == MUL || N[x].op == DIV)
    {
      need(N[x].a);
      need(N[x].b);
    }
    if(root(x)) need(N[x].a);
    if(!ready) continue;
    st.pop_back();
    RF r;
    try
    {
      rf_budget = 400000;
      switch(N[x].op)
      {
        case CONST:
          if(N[x].c != 0) r.num = {{0, N[x].c}};
          break;
        case ADD:
          r = rf_add(rfs[N[N[x].a].rf], rfs[N[N[x].b].rf], 1);
          break;
        case SUB:
          r = rf_add(rfs[N[N[x].a].rf], rfs[N[N[x].b].rf], -1);
          break;
        case MUL:
          r = rf_mul(rfs[N[N[x].a].rf], rfs[N[N[x].b].rf]);
          break;
        case DIV:
        {
          RF inv = rf_inv(rfs[N[N[x].b].rf]);
          r = rf_mul(rfs[N[N[x].a].rf], inv);
          break;
        }
        default:
          r = rf_atom(x);
      }
    }
    catch(TooBig &)
    {
      r = rf_atom(x);
    }
    int id = rf_intern(r);
    N[x].rf = id;
  }
  return N[n].rf;
}
static bool rf_const(int rf, mpq_class & c)
{
  const RF & r = rfs[rf];
  if(r.num.empty())
  {
    c = 0;
    return true;
  }
  if(r.den.empty() && p_isconst(r.num))
  {
    c = r.num[0].second;
    return true;
  }
  return false;
}

// ---------------------------------------------------------------------------------------------------------------
// Formulas
enum FK
{
  F_FALSE,
  F_TRUE,
  F_POISON,
  F_LT, // term < 0
  F_LE,
  F_EQ,
  F_NOT,
  F_AND,
  F_OR
};
struct Form
{
  FK k;
  int a = -1, b = -1;
};
static vector<Form> FM{{F_FALSE}, {F_TRUE}, {F_POISON}};
static std::map<std::tuple<int, int, int>, int> form_tab;
static int fmk(FK k, int a, int b = -1)
{
  auto key = std::make_tuple((int)k, a, b);
  auto it = form_tab.find(key);
  if(it != form_tab.end()) return it->second;
  FM.push_back({k, a, b});
  int id = (int)FM.size() - 1;
  form_tab[key] = id;
  return id;
}
static int f_not(int f)
{
  if(f == 0) return 1;
  if(f == 1) return 0;
  if(f == 2) return 2;
  if(FM[f].k == F_NOT) return FM[f].a;
  return fmk(F_NOT, f);
}
static int f_and(int a, int b)
{
  if(a == 0 || b == 0) return 0;
  if(a == 2 || b == 2) return 2;
  if(a == 1) return b;
  if(b == 1) return a;
  if(a == b) return a;
  return fmk(F_AND, a, b);
}
static int f_or(int a, int b)
{
  if(a == 1 || b == 1) return 1;
  if(a == 2 || b == 2) return 2;
  if(a == 0) return b;
  if(b == 0) return a;
  if(a == b) return a;
  return fmk(F_OR, a, b);
}

// ---------------------------------------------------------------------------------------------------------------
// Engine state
struct PathAbort
{
  int why; // 0 infeasible, 1 out of bound, 2 violation found, 3 decision limit
};
struct Model
{
  std::map<int, double> v; // atom -> value
};
struct Dec
{
  int kind; // 0 formula, 1 choice
  int val;
  int n; // choice arity
  bool open;
  std::shared_ptr<Model> alt;
  bool alt_known = false;
  bool implied = false;
};
struct Stats
{
  long paths = 0, infeasible = 0, outbound = 0, decisions = 0, forks = 0, implied_sign = 0, implied_solver = 0;
  long q_total = 0, q_sat = 0, q_unsat = 0, q_unknown = 0, witness_hits = 0;
  double solver_s = 0;
  long goals = 0, goals_proved = 0, goals_norm = 0, goals_undecided = 0, goals_cached = 0, unreproduced = 0;
  long feas_unknown = 0;
  std::map<string, long> by_label, counters, stage;
  std::map<string, long> covers;
  std::set<string> cover_ok;
  size_t max_dec = 0, max_pc = 0;
  vector<string> undecided_labels;
  vector<string> unrep_labels;
  vector<string> samples;
};
static Stats S;
static vector<Dec> prefix;
static size_t pos_;
static vector<int> pc; // formula ids known true
static std::unordered_map<int, int> known; // formula id -> 0/1
static std::unordered_map<int, int> mask; // monic rf id -> sign mask (1 neg, 2 zero, 4 pos)
static std::shared_ptr<Model> wit; // may be null
static vector<std::pair<string, int>> path_choices;
static vector<int> path_inputs;
static vector<string> path_covers;
static string cur_case, out_dir = ".", replay_cmd;
static double budget_s = 600;
static std::chrono::steady_clock::time_point t_start;
static long seed_ = 1;
static int feas_ms = 400, goal_ms = 8000;
static long path_limit = 2000000, dec_limit = 3000;
static bool stop_all = false;
static string violation_label, violation_file;
static double now_s()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count();
}

// ---------------------------------------------------------------------------------------------------------------
// numeric evaluation (for witnesses and model completion)
static double dflt(int atom)
{
  std::seed_seq ss{(unsigned)seed_, (unsigned)atom, 77u};
  std::mt19937 g(ss);
  int k = (int)(g() % 33) - 16;
  return k / 8.0;
}
struct Eval
{
  const Model & m;
  std::unordered_map<int, double> memo;
  // function tables of the model, so that its completion respects congruence
  std::unordered_map<string, double> tab;
  bool built = false;
  explicit Eval(const Model & mm) : m(mm) {}
  string key(int f)
  {
    string k = N[f].name;
    char b[40];
    for(int a : N[f].args)
    {
      double v = memo[a];
      if(std::fabs(v) < 1e3)
        snprintf(b, sizeof b, ",%.6f", v + 0.0);
      else
        snprintf(b, sizeof b, ",%.8g", v);
      if(!strcmp(b, ",-0.000000")) strcpy(b, ",0.000000");
      k += b;
    }
    return k;
  }
  void build()
  {
    if(built) return;
    built = true;
    vector<int> fs;
    for(auto & kv : m.v)
      if(N[kv.first].op == FUN && !N[kv.first].builtin) fs.push_back(kv.first);
    std::sort(fs.begin(), fs.end());
    for(int f : fs)
    {
      for(int a : N[f].args) (*this)(a);
      tab.emplace(key(f), m.v.at(f));
    }
  }
  double operator()(int n)
  {
    auto it = memo.find(n);
    if(it != memo.end()) return it->second;
    vector<int> st{n};
    while(!st.empty())
    {
      int x = st.back();
      if(memo.count(x))
      {
        st.pop_back();
        continue;
      }
      const Node & d = N[x];
      bool ready = true;
      auto need = [&](int c) {
        if(!memo.count(c))
        {
          st.push_back(c);
          ready = false;
        }
      };
      if(d.op == ADD || d.op == SUB || d.op == MUL || d.op == DIV)
      {
        need(d.a);
        if(ready) need(d.b);
      }
      if(d.op == SQRT || d.op == ABS) need(d.a);
      if(d.op == FUN && (d.builtin || !m.v.count(x)))
        for(int c : d.args) need(c);
      if(!ready) continue;
      st.pop_back();
      double v = 0;
      switch(d.op)
      {
        case CONST:
          v = d.c.get_d();
          break;
        case VAR:
        {
          auto f = m.v.find(x);
          v = f == m.v.end() ? dflt(x) : f->second;
          break;
        }
        case FUN:
        {
          auto f = m.v.find(x);
          if(f != m.v.end())
            v = f->second;
          else if(d.builtin)
          {
            double w = d.args.size() == 1 ? memo[d.args[0]] : 0;
            v = d.name == "exp" ? std::exp(w) : d.name == "log" ? std::log(w) : d.name == "sin" ? std::sin(w) : d.name == "cos" ? std::cos(w) : dflt(x);
          }
          else
          {
            build();
            string k = key(x);
            auto t = tab.find(k);
            if(t != tab.end())
              v = t->second;
            else
              tab[k] = v = dflt(x);
          }
          break;
        }
        case ADD:
          v = memo[d.a] + memo[d.b];
          break;
        case SUB:
          v = memo[d.a] - memo[d.b];
          break;
        case MUL:
          v = memo[d.a] * memo[d.b];
          break;
        case DIV:
          v = memo[d.a] / memo[d.b];
          break;
        case ABS:
          v = std::fabs(memo[d.a]);
          break;
        case SQRT:
          v = std::sqrt(std::max(0.0, memo[d.a]));
          break;
      }
      memo[x] = v;
    }
    return memo[n];
  }
};
static std::unique_ptr<Eval> wev;
static Model * wev_for = nullptr;
static double weval(int n)
{
  if(!wev || wev_for != wit.get())
  {
    wev.reset(new Eval(*wit));
    wev_for = wit.get();
  }
  return (*wev)(n);
}
// 1 true, 0 false, -1 not sure
static int feval(int f)
{
  const Form & F = FM[f];
  switch(F.k)
  {
    case F_FALSE:
      return 0;
    case F_TRUE:
      return 1;
    case F_POISON:
      return -1;
    case F_LT:
    case F_LE:
    case F_EQ:
    {
      // robust: use the two sides' magnitude
      int d = F.a;
      double v = weval(d);
      double sc = 1;
      if(N[d].op == SUB || N[d].op == ADD) sc += std::fabs(weval(N[d].a)) + std::fabs(weval(N[d].b));
      if(!std::isfinite(v)) return -1;
      if(std::fabs(v) < 1e-9 * sc)
      {
        return -1;
      }
      if(F.k == F_EQ) return 0;
      return v < 0;
    }
    case F_NOT:
    {
      int r = feval(F.a);
      return r < 0 ? r : !r;
    }
    case F_AND:
    {
      int x = feval(F.a), y = feval(F.b);
      if(x == 0 || y == 0) return 0;
      return x == 1 && y == 1 ? 1 : -1;
    }
    case F_OR:
    {
      int x = feval(F.a), y = feval(F.b);
      if(x == 1 || y == 1) return 1;
      return x == 0 && y == 0 ? 0 : -1;
    }
  }
  return -1;
}

// ---------------------------------------------------------------------------------------------------------------
// sign analysis (sound pruning only)
static int mmul(int a, int b)
{
  int r = 0;
  for(int i = 0; i < 3; i++)
    for(int j = 0; j < 3; j++)
      if((a >> i & 1) && (b >> j & 1))
      {
        int s = (i - 1) * (j - 1);
        r |= 1 << (s + 1);
      }
  return r;
}
static int mneg(int m)
{
  return ((m & 1) << 2) | (m & 2) | ((m >> 2) & 1);
}
static int monic_rf(int rf, int & sgn);
static int poly_sign(const Poly & p, int depth);
static int atom_sign(int at, int depth)
{
  int m = 7;
  const Node & n = N[at];
  if(n.op == ABS)
  {
    m = 6;
    int sg;
    auto it = mask.find(monic_rf(canon(n.a), sg));
    if(it != mask.end() && !(it->second & 2)) m = 4;
    if(it != mask.end() && it->second == 2) m = 2;
  }
  if(n.op == SQRT)
  {
    m = 6;
    if(depth < 6)
    {
      int sg;
      int k = monic_rf(canon(n.a), sg);
      auto it = mask.find(k);
      int am = 7;
      if(it != mask.end()) am = sg > 0 ? it->second : mneg(it->second);
      am &= poly_sign(rfs[canon(n.a)].num, depth + 1) == 4 && rfs[canon(n.a)].den.empty() ? 4 : 7;
      if(!(am & 2) && !(am & 1)) m = 4;
    }
  }
  if(n.op == FUN && n.builtin && n.name == "exp") m = 4;
  if(n.rf >= 0)
  {
    int sg;
    int k = monic_rf(n.rf, sg);
    auto it = mask.find(k);
    if(it != mask.end()) m &= sg > 0 ? it->second : mneg(it->second);
  }
  return m;
}
// numeric constants built from nested square roots: value to 1024 bits
static std::unordered_map<int, pair<bool, mpf_class>> calg_memo;
static bool poly_calg(const Poly & p, mpf_class & v);
static bool atom_calg(int at, mpf_class & v)
{
  const Node & n = N[at];
  if(n.op != SQRT && n.op != ABS) return false;
  auto it = calg_memo.find(at);
  if(it != calg_memo.end())
  {
    v = it->second.second;
    return it->second.first;
  }
  const RF & r = rfs[canon(n.a)];
  mpf_class x(0, 1024), d(1, 1024);
  bool ok = poly_calg(r.num, x);
  for(auto & f : r.den)
  {
    mpf_class y(0, 1024);
    ok = ok && poly_calg(factors[f.first], y);
    if(!ok) break;
    for(int i = 0; i < f.second; i++) d *= y;
  }
  if(ok && d == 0) ok = false;
  if(ok) x /= d;
  if(n.op == SQRT && x < 0) ok = false;
  mpf_class res(0, 1024);
  if(ok) res = n.op == SQRT ? mpf_class(sqrt(x)) : mpf_class(abs(x));
  calg_memo[at] = {ok, res};
  v = res;
  return ok;
}
static bool poly_calg(const Poly & p, mpf_class & v)
{
  v = mpf_class(0, 1024);
  for(auto & t : p)
  {
    mpf_class m(t.second, 1024);
    for(auto & ae : monos[t.first])
    {
      mpf_class a(0, 1024);
      if(!atom_calg(ae.first, a)) return false;
      for(int i = 0; i < ae.second; i++) m *= a;
    }
    v += m;
  }
  return true;
}
static int poly_sign0(const Poly & p, int depth);
static int poly_sign(const Poly & p, int depth)
{
  int r = poly_sign0(p, depth);
  if(r == 7 && p.size() < 200)
  {
    mpf_class v(0, 1024);
    if(poly_calg(p, v))
    {
      static const mpf_class tiny("1e-120", 1024);
      if(v > tiny) return 4;
      if(v < -tiny) return 1;
    }
  }
  return r;
}
static int poly_sign0(const Poly & p, int depth)
{
  if(p.empty()) return 2;
  if(p.size() > 60) return 7;
  int acc = 2;
  for(auto & t : p)
  {
    int m = t.second > 0 ? 4 : 1;
    for(auto & ae : monos[t.first])
    {
      int am = atom_sign(ae.first, depth + 1);
      if(ae.second % 2 == 0)
      {
        am = (am & 2) | ((am & 5) ? 4 : 0);
      }
      m = mmul(m, am);
    }
    // sum
    int r = 0;
    for(int i = 0; i < 3; i++)
      for(int j = 0; j < 3; j++)
        if((acc >> i & 1) && (m >> j & 1))
        {
          int a = i - 1, b = j - 1;
          if(a == 0)
            r |= 1 << (b + 1);
          else if(b == 0 || a == b)
            r |= 1 << (a + 1);
          else
            r |= 7;
        }
    acc = r;
    if(acc == 7) return 7;
  }
  return acc;
}
static std::unordered_map<int, pair<int, int>> monic_memo;
static int monic_rf(int rf, int & sgn)
{
  auto it = monic_memo.find(rf);
  if(it != monic_memo.end())
  {
    sgn = it->second.second;
    return it->second.first;
  }
  RF r = rfs[rf];
  sgn = 1;
  int id = rf;
  if(!r.num.empty())
  {
    mpq_class c = r.num[0].second;
    sgn = c > 0 ? 1 : -1;
    r.num = p_scale(r.num, 1 / c);
    id = rf_intern(r);
  }
  monic_memo[rf] = {id, sgn};
  return id;
}
// sign mask (1 neg, 4 pos) of a denominator factor on this path
static int factor_sign(int f)
{
  int fs = poly_sign(factors[f], 0) & 5; // a factor we divided by is nonzero on this path
  RF fr;
  fr.num = factors[f];
  int fsg;
  int fk = monic_rf(rf_intern(fr), fsg);
  auto fi = mask.find(fk);
  if(fi != mask.end()) fs &= (fsg > 0 ? fi->second : mneg(fi->second)) & 5;
  return fs ? fs : 5;
}
static int rf_sign(int rf)
{
  int sg;
  int k = monic_rf(rf, sg);
  int m = 7;
  auto it = mask.find(k);
  if(it != mask.end()) m &= sg > 0 ? it->second : mneg(it->second);
  RF r = rfs[rf];
  int s = poly_sign(r.num, 0);
  for(auto & f : r.den)
  {
    s = mmul(s, f.second % 2 == 0 ? 4 : factor_sign(f.first));
  }
  return m & s;
}
static void learn(int term, int m) // sign mask of term
{
  int sg;
  int k = monic_rf(canon(term), sg);
  if(sg < 0) m = mneg(m);
  auto it = mask.find(k);
  if(it == mask.end())
    mask[k] = m;
  else
    it->second &= m;
}
static void assert_known(int f, bool v)
{
  known[f] = v;
  known[f_not(f)] = !v;
  const Form & F = FM[f];
  switch(F.k)
  {
    case F_NOT:
      if(!known.count(F.a) || known[F.a] != !v) assert_known(F.a, !v);
      break;
    case F_LT:
      learn(F.a, v ? 1 : 6);
      break;
    case F_LE:
      learn(F.a, v ? 3 : 4);
      break;
    case F_EQ:
      learn(F.a, v ? 2 : 5);
      break;
    case F_AND:
      if(v)
      {
        assert_known(F.a, true);
        assert_known(F.b, true);
      }
      break;
    case F_OR:
      if(!v)
      {
        assert_known(F.a, false);
        assert_known(F.b, false);
      }
      break;
    default:
      break;
  }
}
// -1 unknown
static int quick(int f)
{
  auto it = known.find(f);
  if(it != known.end()) return it->second;
  const Form & F = FM[f];
  switch(F.k)
  {
    case F_LT:
    case F_LE:
    case F_EQ:
    {
      int m = rf_sign(canon(F.a));
      int t = F.k == F_LT ? 1 : F.k == F_LE ? 3 : 2;
      if(m == 0) return -1; // contradictory path; let the solver find out
      if((m & t) == 0) return 0;
      if((m & ~t & 7) == 0) return 1;
      return -1;
    }
    case F_NOT:
    {
      int r = quick(F.a);
      return r < 0 ? r : !r;
    }
    case F_AND:
    {
      int x = quick(F.a), y = quick(F.b);
      if(x == 0 || y == 0) return 0;
      return x == 1 && y == 1 ? 1 : -1;
    }
    case F_OR:
    {
      int x = quick(F.a), y = quick(F.b);
      if(x == 1 || y == 1) return 1;
      return x == 0 && y == 0 ? 0 : -1;
    }
    default:
      return F.k == F_TRUE ? 1 : F.k == F_FALSE ? 0 : -1;
  }
}

// ---------------------------------------------------------------------------------------------------------------
// SMT processes
struct Smt
{
  string exe;
  vector<string> args;
  int in = -1, out = -1;
  pid_t pid = -1;
  string buf;
  explicit Smt(string e, vector<string> a) : exe(e), args(a) {}
  void start()
  {
    int pi[2], po[2];
    if(pipe(pi) || pipe(po)) abort();
    pid = fork();
    if(pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(pi[0], 0);
      dup2(po[1], 1);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 2);
      for(int fd = 3; fd < 64; fd++) close(fd);
      vector<char *> av;
      av.push_back((char *)exe.c_str());
      for(auto & s : args) av.push_back((char *)s.c_str());
      av.push_back(nullptr);
      execvp(exe.c_str(), av.data());
      _exit(127);
    }
    close(pi[0]);
    close(po[1]);
    in = pi[1];
    out = po[0];
    buf.clear();
  }
  void kill_()
  {
    if(pid > 0)
    {
      ::kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      close(in);
      close(out);
    }
    pid = -1;
  }
  // sends text, waits for the sentinel; false on timeout/crash
  bool ask(const string & text, double timeout, string & reply)
  {
    if(pid < 0) start();
    string t = text + "\n(echo \"@@done\")\n";
    reply.clear();
    size_t off = 0;
    auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(timeout);
    fcntl(in, F_SETFL, O_NONBLOCK);
    while(true)
    {
      pollfd p[2] = {{out, POLLIN, 0}, {in, (short)(off < t.size() ? POLLOUT : 0), 0}};
      int ms = (int)std::max(0.0, std::chrono::duration<double, std::milli>(end - std::chrono::steady_clock::now()).count());
      int r = poll(p, off < t.size() ? 2 : 1, ms);
      if(r <= 0)
      {
        if(r < 0 && errno == EINTR) continue;
        kill_();
        return false;
      }
      if(off < t.size() && (p[1].revents & POLLOUT))
      {
        ssize_t w = write(in, t.data() + off, t.size() - off);
        if(w > 0) off += w;
      }
      if(p[0].revents & (POLLIN | POLLHUP))
      {
        char b[65536];
        ssize_t g = read(out, b, sizeof b);
        if(g <= 0)
        {
          kill_();
          return false;
        }
        buf.append(b, g);
        size_t k = buf.find("@@done");
        if(k != string::npos)
        {
          reply = buf.substr(0, k);
          buf.clear();
          return true;
        }
      }
    }
  }
};
static Smt z3("z3-new", {"-in", "-smt2"});
static Smt cvc("cvc5", {"--lang=smt2", "--incremental", "--nl-cov", "--produce-models", "--tlimit-per=10000"});

static string lit(const mpq_class & c)
{
  mpq_class a = abs(c);
  string s = a.get_den() == 1 ? a.get_num().get_str() + ".0"
                              : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
  return c < 0 ? "(- " + s + ")" : s;
}
static string sym(int at)
{
  return "a" + std::to_string(at);
}
static string poly_s(const Poly & p)
{
  if(p.empty()) return "0.0";
  string s;
  for(auto & t : p)
  {
    string m;
    int cnt = 0;
    for(auto & ae : monos[t.first])
      for(int i = 0; i < ae.second; i++)
      {
        m += " " + sym(ae.first);
        cnt++;
      }
    string term;
    if(cnt == 0)
      term = lit(t.second);
    else if(t.second == 1)
      term = cnt == 1 ? m.substr(1) : "(*" + m + ")";
    else
      term = "(* " + lit(t.second) + m + ")";
    s += " " + term;
  }
  return p.size() == 1 ? s.substr(1) : "(+" + s + ")";
}
// encoder: mode 0 = normal forms, mode 1 = term DAG (depth-limited by `depth`, -1 unlimited)
struct Enc
{
  int mode, depth;
  string decl, body;
  std::set<int> atoms; // atoms with a value of their own (VAR, FUN, SQRT, CUT)
  std::set<int> emitted;
  bool abstracted = false;
  Enc(int m, int d) : mode(m), depth(d) {}
  void atom(int at)
  {
    if(!atoms.insert(at).second) return;
    decl += "(declare-const " + sym(at) + " Real)\n";
    const Node & n = N[at];
    if(n.op == ABS)
    {
      string x = mode == 0 ? rfdef(n.a) : dag(n.a, depth < 0 ? -1 : 3);
      body += "(assert (= " + sym(at) + " (ite (< " + x + " 0.0) (- " + x + ") " + x + ")))\n";
    }
    else if(n.op == SQRT)
    {
      body += "(assert (>= " + sym(at) + " 0.0))\n";
      if(mode == 0)
      {
        RF r = rfs[canon(n.a)];
        string l = "(* " + sym(at) + " " + sym(at) + den_s(r) + ")";
        string p = poly(r.num);
        body += "(assert (= " + l + " " + p + "))\n";
      }
      else
      {
        string t = dag(n.a, depth < 0 ? -1 : 3);
        body += "(assert (= (* " + sym(at) + " " + sym(at) + ") " + t + "))\n";
      }
    }
    else if(n.op == FUN && n.builtin && n.name == "exp")
      body += "(assert (> " + sym(at) + " 0.0))\n";
    else if(n.op != VAR && n.op != FUN)
    {
      // a cut: the term is too large for a normal form; give its definition over its children
      if(mode == 0)
      {
        string x = rfdef(n.a), y = rfdef(n.b);
        if(n.op == DIV)
          body += "(assert (= (* " + sym(at) + " " + y + ") " + x + "))\n";
        else
          body += "(assert (= " + sym(at) + " (" + (n.op == ADD ? "+" : n.op == SUB ? "-" : "*") + " " + x + " " + y + ")))\n";
      }
    }
  }
  string rfdef(int n)
  {
    RF r = rfs[canon(n)];
    if(r.den.empty()) return poly(r.num);
    // q = num/den through a fresh constant
    string q = "q" + std::to_string(canon(n));
    if(!emitted.count(-2 - canon(n)))
    {
      emitted.insert(-2 - canon(n));
      string p = poly(r.num), d = den_s(r);
      decl += "(declare-const " + q + " Real)\n";
      body += "(assert (= (* " + q + d + ") " + p + "))\n";
    }
    return q;
  }
  string den_s(const RF & r)
  {
    string d;
    for(auto & f : r.den)
      for(int i = 0; i < f.second; i++) d += " " + poly(factors[f.first]);
    return d;
  }
  string poly(const Poly & p)
  {
    for(auto & t : p)
      for(auto & ae : monos[t.first]) atom(ae.first);
    return poly_s(p);
  }
  std::unordered_map<int, string> dmemo;
  string dag(int n, int d)
  {
    const Node & x = N[n];
    if(x.op == CONST) return lit(x.c);
    if(x.op == VAR || x.op == FUN)
    {
      atom(n);
      return sym(n);
    }
    if(depth >= 0 && d <= 0)
    {
      if(emitted.insert(n).second && !atoms.count(n)) decl += "(declare-const " + sym(n) + " Real)\n";
      abstracted = true;
      if(root(n) && !sq.count(n))
      {
        sq.insert(n);
        body += "(assert (>= " + sym(n) + " 0.0))\n";
      }
      return sym(n);
    }
    if(root(n))
    {
      if(depth < 0)
      {
        atom(n);
        return sym(n);
      }
      if(emitted.insert(n).second) decl += "(declare-const " + sym(n) + " Real)\n";
      if(!defd.count(n))
      {
        defd.insert(n);
        string t = dag(x.a, d - 1);
        if(x.op == ABS)
          body += "(assert (= " + sym(n) + " (ite (< " + t + " 0.0) (- " + t + ") " + t + ")))\n";
        else
          body += "(assert (and (>= " + sym(n) + " 0.0) (= (* " + sym(n) + " " + sym(n) + ") " + t + ")))\n";
      }
      return sym(n);
    }
    // inner nodes: one named constant per node, defined once at the largest depth that reaches it
    if(depth >= 0)
    {
      if(emitted.insert(n).second) decl += "(declare-const " + sym(n) + " Real)\n";
      if(!defd.count(n) || defdepth[n] < d)
      {
        bool first = !defd.count(n);
        defd.insert(n);
        defdepth[n] = d;
        string p = dag(x.a, d - 1), q = dag(x.b, d - 1);
        if(first)
        {
          if(x.op == DIV)
            body += "(assert (= (* " + sym(n) + " " + q + ") " + p + "))\n";
          else
            body += "(assert (= " + sym(n) + " (" + ops(x.op) + " " + p + " " + q + ")))\n";
        }
      }
      return sym(n);
    }
    auto it = dmemo.find(n);
    if(it != dmemo.end()) return it->second;
    // iterative over children to bound recursion
    vector<int> st{n};
    while(!st.empty())
    {
      int y = st.back();
      const Node & z = N[y];
      if(dmemo.count(y) || z.op == CONST || z.op == VAR || z.op == FUN || root(y))
      {
        st.pop_back();
        continue;
      }
      bool ready = true;
      for(int c : {z.a, z.b})
      {
        const Node & w = N[c];
        if(w.op != CONST && w.op != VAR && w.op != FUN && !root(c) && !dmemo.count(c))
        {
          st.push_back(c);
          ready = false;
        }
      }
      if(!ready) continue;
      st.pop_back();
      string p = dag(z.a, -1), q = dag(z.b, -1);
      if(z.op == DIV)
      {
        decl += "(declare-const d" + std::to_string(y) + " Real)\n";
        body += "(assert (= (* d" + std::to_string(y) + " " + q + ") " + p + "))\n";
        dmemo[y] = "d" + std::to_string(y);
      }
      else
      {
        body += "(define-fun e" + std::to_string(y) + " () Real (" + ops(z.op) + " " + p + " " + q + "))\n";
        dmemo[y] = "e" + std::to_string(y);
      }
    }
    return dmemo[n];
  }
  std::set<int> sq, defd;
  std::map<int, int> defdepth;
  static const char * ops(Op o)
  {
    return o == ADD ? "+" : o == SUB ? "-" : "*";
  }
  string form(int f, int d)
  {
    const Form & F = FM[f];
    switch(F.k)
    {
      case F_FALSE:
        return "false";
      case F_TRUE:
        return "true";
      case F_POISON:
        return "true";
      case F_NOT:
        return "(not " + form(F.a, d) + ")";
      case F_AND:
        return "(and " + form(F.a, d) + " " + form(F.b, d) + ")";
      case F_OR:
        return "(or " + form(F.a, d) + " " + form(F.b, d) + ")";
      default:
      {
        string op = F.k == F_LT ? "<" : F.k == F_LE ? "<=" : "=";
        if(mode == 0)
        {
          RF r = rfs[canon(F.a)];
          if(!r.num.empty())
          {
            // scale by a positive number: the solver copes badly with huge common factors
            mpq_class lc = r.num[0].second;
            size_t sz = mpz_sizeinbase(lc.get_num_mpz_t(), 2) + mpz_sizeinbase(lc.get_den_mpz_t(), 2);
            if(sz > 24) r.num = p_scale(r.num, 1 / mpq_class(abs(lc)));
          }
          string t = poly(r.num);
          if(F.k != F_EQ)
          {
            // multiply out the denominator; a factor whose sign the path fixes only turns the inequality
            string odd;
            bool flip = false;
            for(auto & fc : r.den)
            {
              if(fc.second % 2 == 0) continue;
              int fs = factor_sign(fc.first);
              if(fs == 1)
                flip = !flip;
              else if(fs != 4)
                odd += " " + poly(factors[fc.first]);
            }
            if(!odd.empty()) t = "(* " + t + odd + ")";
            if(flip) t = "(- " + t + ")";
          }
          return "(" + op + " " + t + " 0.0)";
        }
        return "(" + op + " " + dag(F.a, d) + " 0.0)";
      }
    }
  }
};

static void atoms_of_node(int n, std::set<int> & out, std::unordered_map<int, char> & seen)
{
  vector<int> st{n};
  while(!st.empty())
  {
    int x = st.back();
    st.pop_back();
    if(seen[x]) continue;
    seen[x] = 1;
    const Node & d = N[x];
    if(d.op == VAR || d.op == FUN) out.insert(x);
    if(d.a >= 0) st.push_back(d.a);
    if(d.b >= 0) st.push_back(d.b);
    for(int c : d.args) st.push_back(c); // congruence couples them
  }
}
static std::unordered_map<int, std::set<int>> fatoms_memo;
static const std::set<int> & fatoms(int f)
{
  auto it = fatoms_memo.find(f);
  if(it != fatoms_memo.end()) return it->second;
  std::set<int> r;
  const Form & F = FM[f];
  if(F.k == F_LT || F.k == F_LE || F.k == F_EQ)
  {
    std::unordered_map<int, char> seen;
    atoms_of_node(F.a, r, seen);
  }
  else
  {
    if(F.a >= 0 && F.k != F_FALSE && F.k != F_TRUE && F.k != F_POISON)
    {
      auto x = fatoms(F.a);
      r.insert(x.begin(), x.end());
    }
    if(F.b >= 0)
    {
      auto x = fatoms(F.b);
      r.insert(x.begin(), x.end());
    }
  }
  return fatoms_memo[f] = r;
}
static vector<int> slice(const vector<int> & all, int goal)
{
  std::set<int> at = fatoms(goal);
  vector<char> in(all.size(), 0);
  bool ch = true;
  while(ch)
  {
    ch = false;
    for(size_t i = 0; i < all.size(); i++)
      if(!in[i])
      {
        auto & x = fatoms(all[i]);
        bool hit = false;
        for(int a : x)
          if(at.count(a))
          {
            hit = true;
            break;
          }
        if(hit)
        {
          in[i] = 1;
          at.insert(x.begin(), x.end());
          ch = true;
        }
      }
  }
  vector<int> r;
  for(size_t i = 0; i < all.size(); i++)
    if(in[i]) r.push_back(all[i]);
  return r;
}

enum Res
{
  UNSAT,
  SAT,
  UNKNOWN
};
static double parse_num(const string & s)
{
  // s-expression: 1.0 | (- x) | (/ a b) | 1.41? | (root-obj ...)
  size_t i = 0;
  std::function<double()> p = [&]() -> double {
    while(i < s.size() && isspace(s[i])) i++;
    if(s[i] == '(')
    {
      i++;
      while(isspace(s[i])) i++;
      string op;
      while(i < s.size() && !isspace(s[i])) op += s[i++];
      double v = 0;
      if(op == "-")
      {
        double a = p();
        while(isspace(s[i])) i++;
        v = s[i] == ')' ? -a : a - p();
      }
      else if(op == "/")
      {
        double a = p();
        v = a / p();
      }
      else
        v = NAN;
      int lvl = 1;
      while(i < s.size() && lvl > 0)
      {
        if(s[i] == '(') lvl++;
        if(s[i] == ')') lvl--;
        i++;
      }
      return v;
    }
    string t;
    while(i < s.size() && !isspace(s[i]) && s[i] != ')') t += s[i++];
    if(!t.empty() && t.back() == '?') t.pop_back();
    // exact rationals can be long: use mpq
    try
    {
      if(t.find('.') == string::npos) return mpq_class(t).get_d();
    }
    catch(...)
    {
    }
    return strtod(t.c_str(), nullptr);
  };
  return p();
}
static FILE * qlog = nullptr;
static Res ask_solver(Smt & s, const string & text, int ms, const std::set<int> & atoms, Model * m)
{
  auto t0 = std::chrono::steady_clock::now();
  string pre = "(reset)\n";
  if(&s == &z3)
    pre += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n(set-option :timeout "
           + std::to_string(ms) + ")\n";
  else
    pre += "(set-logic QF_NRA)\n";
  string r;
  S.q_total++;
  bool ok = s.ask(pre + text + "(check-sat)\n", ms / 1000.0 * 1.5 + 2.0, r);
  Res res = UNKNOWN;
  if(ok && r.find("(error") == string::npos)
  {
    if(r.find("unsat") != string::npos)
      res = UNSAT;
    else if(r.find("unknown") != string::npos || r.find("timeout") != string::npos)
      res = UNKNOWN;
    else if(r.find("sat") != string::npos)
      res = SAT;
  }
  if(ok && r.find("(error") != string::npos && getenv("SYMX_DEBUG")) fprintf(stderr, "solver error: %s\n", r.c_str());
  if(res == SAT && m && !atoms.empty())
  {
    string q = "(get-value (";
    for(int a : atoms) q += sym(a) + " ";
    q += "))\n";
    if(s.ask(q, 10, r) && r.find("(error") == string::npos)
    {
      // ((a1 v) (a2 v))
      size_t i = r.find('(');
      i++;
      while(i < r.size())
      {
        size_t b = r.find("(a", i);
        if(b == string::npos) break;
        size_t e = b + 2;
        while(isdigit(r[e])) e++;
        int at = atoi(r.substr(b + 2, e - b - 2).c_str());
        int lvl = 1;
        size_t k = e;
        while(k < r.size() && lvl > 0)
        {
          if(r[k] == '(') lvl++;
          if(r[k] == ')') lvl--;
          k++;
        }
        double v = parse_num(r.substr(e, k - 1 - e));
        if(std::isfinite(v)) m->v[at] = v;
        i = k;
      }
    }
  }
  S.solver_s += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if(res == SAT) S.q_sat++;
  if(res == UNSAT) S.q_unsat++;
  if(res == UNKNOWN) S.q_unknown++;
  if(qlog)
  {
    fprintf(qlog, "; ---- %s %d ms -> %d (%.3f s)\n%s\n", s.exe.c_str(), ms, (int)res,
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), text.c_str());
    fflush(qlog);
  }
  return res;
}
// congruence constraints between harness functions with equal arguments
static string ackermann(Enc & e)
{
  string out;
  bool again = true;
  std::set<pair<int, int>> done;
  while(again)
  {
    again = false;
    vector<int> fs;
    for(int a : e.atoms)
      if(N[a].op == FUN) fs.push_back(a);
    for(size_t i = 0; i < fs.size(); i++)
      for(size_t j = i + 1; j < fs.size(); j++)
      {
        if(N[fs[i]].name != N[fs[j]].name || N[fs[i]].args.size() != N[fs[j]].args.size()) continue;
        if(!done.insert({fs[i], fs[j]}).second) continue;
        string conj;
        bool never = false;
        for(size_t k = 0; k < N[fs[i]].args.size(); k++)
        {
          int d = t_sub(N[fs[i]].args[k], N[fs[j]].args[k]);
          mpq_class c;
          if(rf_const(canon(d), c))
          {
            if(c != 0) never = true;
            continue;
          }
          size_t before = e.atoms.size();
          int f = fmk(F_EQ, d);
          conj += " " + e.form(f, -1);
          if(e.atoms.size() != before) again = true;
        }
        if(never) continue;
        out += "(assert (=> (and true" + conj + ") (= " + sym(fs[i]) + " " + sym(fs[j]) + ")))\n";
        // exp, log monotone is not needed
      }
  }
  return out;
}
static bool congruent(const Model & m, const Enc & e)
{
  Eval ev(m);
  vector<int> fs;
  for(int a : e.atoms)
    if(N[a].op == FUN) fs.push_back(a);
  for(size_t i = 0; i < fs.size(); i++)
    for(size_t j = i + 1; j < fs.size(); j++)
    {
      if(N[fs[i]].name != N[fs[j]].name || N[fs[i]].args.size() != N[fs[j]].args.size()) continue;
      bool same = true;
      for(size_t k = 0; k < N[fs[i]].args.size(); k++)
        if(std::fabs(ev(N[fs[i]].args[k]) - ev(N[fs[j]].args[k])) > 1e-7) same = false;
      if(same && std::fabs(ev(fs[i]) - ev(fs[j])) > 1e-9) return false;
    }
  return true;
}
static size_t nf_size(const vector<int> & fs)
{
  size_t t = 0;
  std::function<void(int)> g = [&](int f) {
    const Form & F = FM[f];
    if(F.k == F_LT || F.k == F_LE || F.k == F_EQ)
    {
      const RF & r = rfs[canon(F.a)];
      t += r.num.size();
      for(auto & x : r.den) t += factors[x.first].size();
    }
    else if(F.k == F_NOT)
      g(F.a);
    else if(F.k == F_AND || F.k == F_OR)
    {
      g(F.a);
      g(F.b);
    }
  };
  for(int f : fs) g(f);
  return t;
}
static Res query(const vector<int> & fs, int ms, Model * m, int mode = 0, int depth = -1, Smt * s = nullptr,
                 const std::function<string(Enc &)> & extra = nullptr)
{
  Enc e(mode, depth);
  string forms;
  for(int f : fs) forms += "(assert " + e.form(f, depth) + ")\n";
  string ex = extra ? extra(e) : "";
  string text = e.decl + e.body + forms + ex;
  Model tmp;
  Res r = ask_solver(s ? *s : z3, text, ms, e.atoms, m ? &tmp : nullptr);
  if(r == SAT && depth < 0)
  {
    bool hasfun = false;
    for(int a : e.atoms)
      if(N[a].op == FUN) hasfun = true;
    if(hasfun && m && !congruent(tmp, e))
    {
      string ak = ackermann(e);
      string ex2 = extra ? extra(e) : "";
      text = e.decl + e.body + forms + ak + ex2;
      tmp.v.clear();
      r = ask_solver(s ? *s : z3, text, ms * 2, e.atoms, &tmp);
      S.stage["congruence-refined"]++;
    }
  }
  if(r == SAT && m)
  {
    for(auto & kv : tmp.v) m->v[kv.first] = kv.second;
  }
  return r;
}
// feasibility of pc /\ f
static Res feasible(int f, Model * m)
{
  vector<int> fs = slice(pc, f);
  fs.push_back(f);
  Res r = UNKNOWN;
  if(nf_size(fs) < 3000) r = query(fs, feas_ms, m, 0);
  if(r == UNKNOWN) r = query(fs, feas_ms, m, 1);
  if(r == UNKNOWN) // an abstraction may still refute it
    for(int d : {2, 4})
      if(query(fs, feas_ms, nullptr, 1, d) == UNSAT) return UNSAT;
  if(r == UNKNOWN) S.feas_unknown++;
  return r;
}

// ---------------------------------------------------------------------------------------------------------------
// decisions
static void report(const string & label, const Model & m, bool poison);

static std::shared_ptr<Model> merged(const Model & m)
{
  auto r = std::make_shared<Model>();
  if(wit) r->v = wit->v;
  for(auto & kv : m.v) r->v[kv.first] = kv.second;
  return r;
}
// implied: pc already entails f, so that the solver need not be told again
static void add_pc(int f, bool implied = false)
{
  if(!implied) pc.push_back(f);
  assert_known(f, true);
  S.max_pc = std::max(S.max_pc, pc.size());
}
static bool decide(int f)
{
  if(f == 0) return false;
  if(f == 1) return true;
  if(f == 2)
  {
    Model m;
    if(wit) m = *wit;
    report("uninitialised-value-used-in-decision", m, true);
    throw PathAbort{2};
  }
  int q = quick(f);
  if(q >= 0)
  {
    S.implied_sign++;
    return q;
  }
  if((long)pos_ > dec_limit) throw PathAbort{3};
  if(now_s() > budget_s)
  {
    stop_all = true;
    throw PathAbort{4};
  }
  if(pos_ < prefix.size())
  {
    Dec & d = prefix[pos_++];
    add_pc(d.val ? f : f_not(f), d.implied);
    if(pos_ == prefix.size() && d.alt_known)
    {
      wit = d.alt;
      wev.reset();
    }
    return d.val;
  }
  S.decisions++;
  Dec d{0, 1, 2, false, nullptr};
  int w = wit ? feval(f) : -1;
  bool wvalid = w >= 0;
  int first = w >= 0 ? w : 1;
  auto side = [&](int v, std::shared_ptr<Model> & mo) -> Res {
    Model m;
    Res r = feasible(v ? f : f_not(f), &m);
    if(r == SAT) mo = merged(m);
    return r;
  };
  std::shared_ptr<Model> m1, m2;
  Res r1 = SAT;
  if(wvalid)
  {
    S.witness_hits++;
    m1 = wit;
  }
  else
    r1 = side(first, m1);
  Res r2 = side(!first, m2);
  if(r1 == UNSAT && r2 == UNSAT) throw PathAbort{0};
  if(r1 == UNSAT)
  {
    std::swap(r1, r2);
    std::swap(m1, m2);
    first = !first;
    r2 = UNSAT;
  }
  d.val = first;
  if(r2 != UNSAT)
  {
    d.open = true;
    d.alt = m2;
    d.alt_known = true;
    S.forks++;
  }
  else
  {
    S.implied_solver++;
    d.implied = true;
  }
  prefix.push_back(d);
  pos_++;
  if(m1 != wit)
  {
    wit = m1;
    wev.reset();
  }
  add_pc(first ? f : f_not(f), d.implied);
  return first;
}
boolean::operator bool() const
{
  return decide(id);
}

// ---------------------------------------------------------------------------------------------------------------
// real operations
static bool poisoned(const real & a)
{
  return a.tag > 1;
}
static real poison()
{
  real r;
  r.tag = 0xFEFEFEFE;
  r.id = (int)0xFEFEFEFE;
  r.c = 0;
  return r;
}
static bool special(const real & a)
{
  return a.tag == 0 && !std::isfinite(a.c);
}
// A machine constant stands for the shortest decimal that denotes it (1e-4 is 1/10000), when that is short.
static const mpq_class & nice(double d)
{
  static std::unordered_map<uint64_t, mpq_class> memo;
  uint64_t k;
  memcpy(&k, &d, 8);
  auto it = memo.find(k);
  if(it != memo.end()) return it->second;
  mpq_class q(d);
  if(q.get_den() != 1)
    for(int p = 1; p <= 15; p++)
    {
      char b[64];
      snprintf(b, sizeof b, "%.*e", p - 1, d);
      if(strtod(b, nullptr) != d) continue;
      // mantissa digits and exponent
      string m;
      int e = 0, dec = 0;
      bool frac = false, neg = false;
      for(char * c = b; *c; c++)
      {
        if(*c == '-' && m.empty())
          neg = true;
        else if(*c == '.')
          frac = true;
        else if(*c == 'e')
        {
          e = atoi(c + 1);
          break;
        }
        else
        {
          m += *c;
          if(frac) dec++;
        }
      }
      e -= dec;
      if(std::abs(e) > 40) break;
      mpz_class t;
      mpz_ui_pow_ui(t.get_mpz_t(), 10, std::abs(e));
      q = e >= 0 ? mpq_class(mpz_class(m) * t) : mpq_class(mpz_class(m), t);
      q.canonicalize();
      if(neg) q = -q;
      break;
    }
  return memo[k] = q;
}
static int node(const real & a)
{
  if(a.tag == 1) return a.id;
  return mk_const(nice(a.c));
}
static real wrap(int n)
{
  if(isc(n))
  {
    double d = N[n].c.get_d();
    if(std::isfinite(d) && nice(d) == N[n].c) return real(d);
  }
  real r;
  r.tag = 1;
  r.id = n;
  r.c = 0;
  return r;
}
static const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
// sign of a finite value as a decision: -1, 0, 1
static int sign_of(const real & a)
{
  if(a.tag == 0) return a.c > 0 ? 1 : a.c < 0 ? -1 : 0;
  if(decide(e_eq(a, real(0)).id)) return 0;
  return decide(e_lt(a, real(0)).id) ? -1 : 1;
}
real e_add(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return poison();
  if(special(a) || special(b))
  {
    if(special(a) && special(b)) return real(a.c + b.c);
    return special(a) ? a : b;
  }
  return wrap(t_add(node(a), node(b)));
}
real e_sub(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return poison();
  if(special(a) || special(b))
  {
    if(special(a) && special(b)) return real(a.c - b.c);
    return special(a) ? a : real(-b.c);
  }
  return wrap(t_sub(node(a), node(b)));
}
real e_neg(const real & a)
{
  if(poisoned(a)) return poison();
  if(special(a)) return real(-a.c);
  return wrap(t_mul(mk_const(-1), node(a)));
}
real e_mul(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return poison();
  if(special(a) || special(b))
  {
    const real &s = special(a) ? a : b, &o = special(a) ? b : a;
    if(std::isnan(s.c) || (special(o) && std::isnan(o.c))) return real(NaN);
    if(special(o)) return real(s.c * o.c);
    int sg = sign_of(o);
    return sg == 0 ? real(NaN) : real(s.c * sg);
  }
  return wrap(t_mul(node(a), node(b)));
}
real e_div(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return poison();
  if(special(b))
  {
    if(std::isnan(b.c) || special(a)) return real(NaN);
    return real(0);
  }
  if(special(a))
  {
    if(std::isnan(a.c)) return a;
    int sg = sign_of(b);
    return sg == 0 ? a : real(a.c * sg); // inf/0 = inf (sign of zero not tracked: +0)
  }
  bool zero = b.tag == 0 ? b.c == 0 : decide(e_eq(b, real(0)).id);
  if(zero)
  {
    int sg = sign_of(a);
    return sg == 0 ? real(NaN) : real(sg * Inf);
  }
  return wrap(t_div(node(a), node(b)));
}
boolean e_lt(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return boolean::make(2);
  if(special(a) || special(b))
  {
    if((special(a) && std::isnan(a.c)) || (special(b) && std::isnan(b.c))) return boolean(false);
    double x = special(a) ? a.c : 0, y = special(b) ? b.c : 0;
    return boolean(x < y);
  }
  if(a.tag == 0 && b.tag == 0) return boolean(a.c < b.c);
  int d = t_sub(node(a), node(b));
  mpq_class c;
  if(rf_const(canon(d), c)) return boolean(c < 0);
  return boolean::make(fmk(F_LT, d));
}
boolean e_le(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return boolean::make(2);
  if(special(a) || special(b))
  {
    if((special(a) && std::isnan(a.c)) || (special(b) && std::isnan(b.c))) return boolean(false);
    double x = special(a) ? a.c : 0, y = special(b) ? b.c : 0;
    return boolean(x <= y);
  }
  if(a.tag == 0 && b.tag == 0) return boolean(a.c <= b.c);
  int d = t_sub(node(a), node(b));
  mpq_class c;
  if(rf_const(canon(d), c)) return boolean(c <= 0);
  return boolean::make(fmk(F_LE, d));
}
boolean e_eq(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return boolean::make(2);
  if(special(a) || special(b))
  {
    if(special(a) && special(b)) return boolean(a.c == b.c);
    return boolean(false);
  }
  if(a.tag == 0 && b.tag == 0) return boolean(a.c == b.c);
  int d = t_sub(node(a), node(b));
  mpq_class c;
  if(rf_const(canon(d), c)) return boolean(c == 0);
  return boolean::make(fmk(F_EQ, d));
}
boolean e_not(const boolean & a)
{
  return boolean::make(f_not(a.id));
}
boolean e_and(const boolean & a, const boolean & b)
{
  return boolean::make(f_and(a.id, b.id));
}
boolean e_or(const boolean & a, const boolean & b)
{
  return boolean::make(f_or(a.id, b.id));
}
real abs(const real & a)
{
  if(poisoned(a)) return poison();
  if(a.tag == 0) return real(std::fabs(a.c));
  mpq_class c;
  if(rf_const(canon(a.id), c)) return wrap(mk_const(c < 0 ? mpq_class(-c) : c));
  int sm = rf_sign(canon(a.id));
  if(sm && !(sm & 1)) return a;
  if(sm && !(sm & 4)) return e_neg(a);
  int sg;
  int key = monic_rf(canon(a.id), sg);
  static std::unordered_map<int, int> by_rf; // |c p| and |-c p| share an atom
  mpq_class k = rfs[canon(a.id)].num[0].second;
  auto it = by_rf.find(key);
  int id;
  if(it != by_rf.end())
    id = it->second;
  else
  {
    Node x{ABS};
    x.a = t_mul(mk_const(1 / k), a.id);
    id = mk(x);
    by_rf[key] = id;
  }
  canon(id);
  return wrap(t_mul(mk_const(k < 0 ? mpq_class(-k) : k), id));
}
static bool exact_sqrt(const mpq_class & q, mpq_class & r)
{
  if(q < 0) return false;
  mpz_class n = q.get_num(), d = q.get_den();
  if(!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  mpz_class rn = sqrt(n), rd = sqrt(d);
  r = mpq_class(rn, rd);
  return true;
}
real sqrt(const real & a)
{
  if(poisoned(a)) return poison();
  if(special(a)) return real(std::sqrt(a.c));
  if(a.tag == 0 && a.c < 0) return real(NaN);
  int n = node(a);
  mpq_class c;
  if(N[n].op == MUL && N[n].a == N[n].b) return abs(wrap(N[n].a));
  RF r = rfs[canon(n)];
  if(rf_const(canon(n), c))
  {
    if(c < 0) return real(NaN);
    mpq_class s;
    if(exact_sqrt(c, s)) return wrap(mk_const(s));
    Node x{SQRT};
    x.a = mk_const(c);
    int id = mk(x);
    learn(id, 4);
    return wrap(id);
  }
  // single term with even powers: |m|
  if(r.num.size() == 1)
  {
    mpq_class cs;
    bool ok = exact_sqrt(r.num[0].second, cs);
    for(auto & ae : monos[r.num[0].first]) ok = ok && ae.second % 2 == 0;
    for(auto & f : r.den) ok = ok && f.second % 2 == 0;
    if(ok)
    {
      real v = wrap(mk_const(cs));
      for(auto & ae : monos[r.num[0].first])
        for(int i = 0; i < ae.second / 2; i++) v = e_mul(v, abs(wrap(ae.first)));
      for(auto & f : r.den)
      {
        // rebuild the factor as a term
        int t = mk_const(0);
        for(auto & tm : factors[f.first])
        {
          int m = mk_const(tm.second);
          for(auto & ae : monos[tm.first])
            for(int i = 0; i < ae.second; i++) m = t_mul(m, ae.first);
          t = t_add(t, m);
        }
        for(int i = 0; i < f.second / 2; i++) v = e_div(v, abs(wrap(t)));
      }
      return v;
    }
  }
  // perfect square of a linear-ish polynomial is not searched for
  if(decide(e_lt(a, real(0)).id)) return real(NaN);
  Node x{SQRT};
  x.a = n;
  // share the root between equal normal forms
  static std::unordered_map<int, int> by_rf;
  auto it = by_rf.find(canon(n));
  int id;
  if(it != by_rf.end())
    id = it->second;
  else
  {
    id = mk(x);
    by_rf[canon(n)] = id;
  }
  canon(id);
  int am = rf_sign(canon(n));
  learn(id, (am & 2) ? 6 : 4);
  if(am == 2) return real(0);
  return wrap(id);
}
static real builtin1(const char * nm, double (*f)(double), const real & a)
{
  if(poisoned(a)) return poison();
  if(a.tag == 0) return real(f(a.c));
  mpq_class c;
  if(rf_const(canon(a.id), c)) return real(f(c.get_d()));
  Node x{FUN};
  x.name = nm;
  x.args = {a.id};
  x.builtin = true;
  static std::map<pair<string, int>, int> by_rf;
  auto k = std::make_pair(string(nm), canon(a.id));
  auto it = by_rf.find(k);
  int id = it != by_rf.end() ? it->second : (by_rf[k] = mk(x));
  canon(id);
  return wrap(id);
}
real exp(const real & a)
{
  return builtin1("exp", std::exp, a);
}
real sin(const real & a)
{
  return builtin1("sin", std::sin, a);
}
real cos(const real & a)
{
  return builtin1("cos", std::cos, a);
}
real tan(const real & a)
{
  return builtin1("tan", std::tan, a);
}
real atan(const real & a)
{
  return builtin1("atan", std::atan, a);
}
real tanh(const real & a)
{
  return builtin1("tanh", std::tanh, a);
}
real floor(const real & a)
{
  return builtin1("floor", std::floor, a);
}
real ceil(const real & a)
{
  return builtin1("ceil", std::ceil, a);
}
real round(const real & a)
{
  return builtin1("round", std::round, a);
}
real log(const real & a)
{
  if(poisoned(a)) return poison();
  if(a.tag == 0) return real(std::log(a.c));
  int s = sign_of(a);
  if(s < 0) return real(NaN);
  if(s == 0) return real(-Inf);
  return builtin1("log", std::log, a);
}
real pow(const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b)) return poison();
  if(b.tag == 0)
  {
    if(a.tag == 0)
    {
      if(b.c == std::floor(b.c) && std::fabs(b.c) < 16 && std::isfinite(a.c) && a.c != 0)
      {
        real r(1);
        for(int i = 0; i < std::fabs(b.c); i++) r = e_mul(r, a);
        return b.c < 0 ? e_div(real(1), r) : r;
      }
      return real(std::pow(a.c, b.c));
    }
    if(b.c == 0.5) return sqrt(a);
    if(b.c == std::floor(b.c) && std::fabs(b.c) <= 16)
    {
      real r(1);
      for(int i = 0; i < std::fabs(b.c); i++) r = e_mul(r, a);
      return b.c < 0 ? e_div(real(1), r) : r;
    }
  }
  return ufun("pow$", {a, b});
}
real fmin(const real & a, const real & b)
{
  if(isnan(a)) return b;
  if(isnan(b)) return a;
  return (b < a) ? b : a;
}
real fmax(const real & a, const real & b)
{
  if(isnan(a)) return b;
  if(isnan(b)) return a;
  return (a < b) ? b : a;
}
real hypot(const real & a, const real & b)
{
  return sqrt(e_add(e_mul(a, a), e_mul(b, b)));
}
real copysign(const real & a, const real & b)
{
  real m = abs(a);
  return decide(e_lt(b, real(0)).id) ? e_neg(m) : m;
}
static bool poison_query(const real & a)
{
  if(poisoned(a)) return decide(2);
  return false;
}
bool isnan(const real & a)
{
  if(poison_query(a)) return true;
  return a.tag == 0 && std::isnan(a.c);
}
bool isinf(const real & a)
{
  if(poison_query(a)) return true;
  return a.tag == 0 && std::isinf(a.c);
}
bool isfinite(const real & a)
{
  if(poison_query(a)) return false;
  return !special(a);
}
bool signbit(const real & a)
{
  if(a.tag == 0) return std::signbit(a.c);
  return decide(e_lt(a, real(0)).id);
}
bool is_finite_term(const real & a)
{
  return !poisoned(a) && !special(a);
}
static double concrete(const real & a)
{
  if(a.tag == 0) return a.c;
  mpq_class c;
  if(a.tag == 1 && rf_const(canon(a.id), c)) return c.get_d();
  fprintf(stderr, "symx: conversion of a symbolic value to a machine number is not supported\n");
  throw PathAbort{5};
}
real::operator double() const
{
  return concrete(*this);
}
real::operator float() const
{
  return (float)concrete(*this);
}
real::operator int() const
{
  return (int)concrete(*this);
}
real::operator long() const
{
  return (long)concrete(*this);
}
real::operator long long() const
{
  return (long long)concrete(*this);
}
real::operator unsigned() const
{
  return (unsigned)concrete(*this);
}
real::operator unsigned long() const
{
  return (unsigned long)concrete(*this);
}
real::operator bool() const
{
  return decide(f_not(e_eq(*this, real(0)).id));
}
string to_str(const real & a)
{
  if(a.tag == 0) return std::to_string(a.c);
  if(poisoned(a)) return "<uninit>";
  return "<t" + std::to_string(a.id) + ">";
}
std::ostream & operator<<(std::ostream & o, const real & a)
{
  if(a.tag == 0) return o << a.c;
  return o << to_str(a);
}
real parse(const string & t)
{
  if(t.rfind("<t", 0) == 0) return wrap(atoi(t.c_str() + 2));
  if(t.rfind("<", 0) == 0) return poison();
  return real(strtod(t.c_str(), nullptr));
}
std::istream & operator>>(std::istream & i, real & a)
{
  double d;
  i >> d;
  a = real(d);
  return i;
}

// ---------------------------------------------------------------------------------------------------------------
// harness interface
string case_name()
{
  return cur_case;
}
bool native_mode()
{
  return false;
}
real input(const string & name)
{
  Node n{VAR};
  n.name = name;
  int id = mk(n);
  canon(id);
  path_inputs.push_back(id);
  return wrap(id);
}
int choose(const string & name, int n)
{
  if(n <= 1) return 0;
  int v;
  if(pos_ < prefix.size())
  {
    v = prefix[pos_++].val;
    if(pos_ == prefix.size())
    {
      wit = prefix.back().alt;
      wev.reset();
    }
  }
  else
  {
    Dec d{1, 0, n, true, nullptr};
    d.alt = wit;
    prefix.push_back(d);
    pos_++;
    v = 0;
  }
  path_choices.emplace_back(name, v);
  return v;
}
static std::map<pair<string, vector<int>>, int> uf_tab;
static vector<int> path_ufs;
real ufun(const string & name, const vector<real> & args)
{
  vector<int> key, ids;
  for(auto & a : args)
  {
    if(poisoned(a)) return poison();
    if(special(a)) return real(NaN); // a problem function of a non-finite argument: non-finite
    int n = node(a);
    ids.push_back(n);
    key.push_back(canon(n));
  }
  auto k = std::make_pair(name, key);
  auto it = uf_tab.find(k);
  int id;
  if(it != uf_tab.end())
    id = it->second;
  else
  {
    Node x{FUN};
    x.name = name;
    x.args = ids;
    id = mk(x);
    uf_tab[k] = id;
  }
  canon(id);
  path_ufs.push_back(id);
  return wrap(id);
}
void assume(const boolean & b)
{
  if(b.id == 0) throw PathAbort{0};
  if(b.id == 1) return;
  int q = quick(b.id);
  if(q == 1) return;
  if(q == 0) throw PathAbort{0};
  if(pos_ >= prefix.size())
  {
    int w = wit ? feval(b.id) : -1;
    if(w != 1)
    {
      Model m;
      Res r = feasible(b.id, &m);
      if(r == UNSAT) throw PathAbort{0};
      if(r == SAT)
        wit = merged(m);
      else
        wit = nullptr;
      wev.reset();
    }
  }
  add_pc(b.id);
}
void cover(const string & label)
{
  path_covers.push_back(label);
}
void count(const string & what, long n)
{
  S.counters[what] += n;
}
string dump_nf(const real & a)
{
  if(a.tag != 1) return to_str(a);
  Enc e(0, -1);
  string t = e.form(fmk(F_EQ, a.id), -1);
  return std::to_string(canon(a.id)) + " " + e.decl + e.body + t;
}
void stop_path()
{
  throw PathAbort{1};
}

static string fmt(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
static void write_model(const string & file, const string & label, const Model & m)
{
  std::ofstream o(file);
  o << "case " << cur_case << "\n";
  o << "label " << label << "\n";
  Eval ev(m);
  std::set<int> done;
  for(int i : path_inputs)
    if(done.insert(i).second) o << "in " << N[i].name << " " << fmt(ev(i)) << "\n";
  for(auto & c : path_choices) o << "choice " << c.first << " " << c.second << "\n";
  for(int f : path_ufs)
    if(done.insert(f).second)
    {
      o << "uf " << N[f].name << " " << N[f].args.size();
      for(int a : N[f].args) o << " " << fmt(ev(a));
      o << " " << fmt(ev(f)) << "\n";
    }
}
// the model as written must denote functions: (nearly) equal arguments, equal values
static bool functional(const Model & m)
{
  Eval ev(m);
  std::map<string, vector<int>> by;
  std::set<int> done;
  for(int f : path_ufs)
    if(done.insert(f).second) by[N[f].name].push_back(f);
  for(auto & kv : by)
    for(size_t i = 0; i < kv.second.size(); i++)
      for(size_t j = i + 1; j < kv.second.size(); j++)
      {
        int a = kv.second[i], b = kv.second[j];
        if(N[a].args.size() != N[b].args.size()) continue;
        bool same = true;
        for(size_t k = 0; k < N[a].args.size() && same; k++)
        {
          double x = ev(N[a].args[k]), y = ev(N[b].args[k]);
          if(!(std::fabs(x - y) <= 1e-7 * (1 + std::fabs(x)))) same = false;
        }
        if(same && !(std::fabs(ev(a) - ev(b)) <= 1e-9 * (1 + std::fabs(ev(a))))) return false;
      }
  return true;
}
static int cex_no = 0;
static std::map<string, int> unrep_count;
// true if reproduced
static bool try_replay(const string & label, const Model & m, bool poison)
{
  if(!functional(m))
  {
    S.stage["candidate-not-functional"]++;
    return false;
  }
  string f = out_dir + "/cex_" + std::to_string(getpid()) + "_" + std::to_string(cex_no++) + ".model";
  write_model(f, label, m);
  if(replay_cmd.empty()) return true;
  string cmd = replay_cmd + " " + f + (poison ? " --fill" : "");
  int rc = system(cmd.c_str());
  if(WIFEXITED(rc) && WEXITSTATUS(rc) == 1)
  {
    violation_file = f;
    return true;
  }
  return false;
}
static void report(const string & label, const Model & m, bool poison)
{
  if(try_replay(label, m, poison))
  {
    violation_label = label;
    stop_all = true;
  }
  else
  {
    S.unreproduced++;
    unrep_count[label]++;
    if(S.unrep_labels.size() < 20) S.unrep_labels.push_back(label);
  }
}
static std::map<pair<vector<int>, int>, int> goal_cache;

static std::function<string(Enc &)> boxed(double b, const string & extra)
{
  return [=](Enc & e) {
    string s;
    vector<int> as(e.atoms.begin(), e.atoms.end());
    for(int a : as)
      if(N[a].op == VAR || N[a].op == FUN)
        s += "(assert (and (<= (- " + fmt(b) + ".0) " + sym(a) + ") (<= " + sym(a) + " " + fmt(b) + ".0)))\n";
    return s + extra;
  };
}
static bool refute(const string & label, const vector<int> & fs, int negf, int strong)
{
  // look for a counterexample that survives rounding: bounded inputs and a visible margin first
  struct Try
  {
    int extra;
    double box;
  };
  vector<pair<int, double>> tries;
  if(strong >= 0)
  {
    tries.push_back({strong, 4});
    tries.push_back({strong, 64});
  }
  tries.push_back({-1, 8});
  tries.push_back({-1, 0});
  tries.push_back({-1, -8});
  for(auto & t : tries)
  {
    vector<int> q = t.second < 0 ? pc : fs;
    q.push_back(negf);
    if(t.first >= 0) q.push_back(t.first);
    Model m;
    Res r;
    if(t.second != 0)
      r = query(q, goal_ms / 2, &m, 0, -1, nullptr, boxed(std::fabs(t.second), ""));
    else
      r = query(q, goal_ms, &m, 0);
    if(r != SAT && t.second == 0) r = query(q, goal_ms, &m, 1);
    if(r == SAT)
    {
      Model full = *merged(m);
      if(try_replay(label, full, false))
      {
        violation_label = label;
        stop_all = true;
        return true;
      }
    }
  }
  return false;
}
static void prove(const string & label, int g, int strong)
{
  S.goals++;
  S.by_label[label]++;
  if(g == 2)
  {
    Model m;
    if(wit) m = *wit;
    report("uninitialised-value: " + label, m, true);
    throw PathAbort{2};
  }
  if(g == 0)
  {
    // fails on every input of this path: the path condition must be satisfiable
    Model m;
    bool ok = false;
    {
      Res r = query(pc, goal_ms, &m, 0, -1, nullptr, boxed(16, ""));
      if(r != SAT) r = query(pc, goal_ms, &m, 0);
      if(r != SAT) r = query(pc, goal_ms, &m, 1);
      if(r == UNSAT) throw PathAbort{0};
      ok = r == SAT;
    }
    if(!ok && wit) m = *wit, ok = true;
    if(ok)
    {
      report(label, *merged(m), false);
      throw PathAbort{2};
    }
    S.goals_undecided++;
    if(S.undecided_labels.size() < 20) S.undecided_labels.push_back(label);
    return;
  }
  if(g == 1)
  {
    S.goals_norm++;
    S.goals_proved++;
    return;
  }
  int neg = f_not(g);
  vector<int> fs = slice(pc, neg);
  auto key = std::make_pair(fs, g);
  if(goal_cache.count(key))
  {
    S.goals_cached++;
    S.goals_proved++;
    return;
  }
  if(now_s() > budget_s)
  {
    stop_all = true;
    throw PathAbort{4};
  }
  auto done = [&](const char * st) {
    S.goals_proved++;
    S.stage[st]++;
    goal_cache[key] = 1;
    if(S.samples.size() < 6)
    {
      Enc e(0, -1);
      string t = e.form(g, -1);
      S.samples.push_back(label + ": " + (t.size() > 300 ? t.substr(0, 300) + "..." : t) + " under "
                          + std::to_string(fs.size()) + " path constraints");
    }
  };
  vector<int> q = fs;
  q.push_back(neg);
  bool nf = nf_size(q) < 6000;
  Res r = UNKNOWN;
  Model m;
  if(nf)
  {
    r = query(q, std::min(goal_ms, 1500), &m, 0);
    if(r == UNSAT)
    {
      done("normal-form");
      return;
    }
  }
  if(r == UNKNOWN)
  {
    for(int d : {2, 3, 4, 6, 9})
      if(query(q, 1000, nullptr, 1, d) == UNSAT)
      {
        done("abstraction");
        return;
      }
    if(nf)
    {
      r = query(q, goal_ms, &m, 0);
      if(r == UNSAT)
      {
        done("normal-form");
        return;
      }
    }
    if(r == UNKNOWN) r = query(q, goal_ms, &m, 1);
    if(r == UNSAT)
    {
      done("term-dag");
      return;
    }
    if(r == UNKNOWN)
    {
      r = query(q, goal_ms, &m, 0, -1, &cvc);
      if(r == UNSAT)
      {
        done("cvc5");
        return;
      }
    }
  }
  if(r == SAT)
  {
    if(unrep_count[label] < 6)
    {
      Model full = *merged(m);
      if(refute(label, fs, neg, strong)) throw PathAbort{2};
      if(try_replay(label, full, false))
      {
        violation_label = label;
        stop_all = true;
        throw PathAbort{2};
      }
    }
    S.unreproduced++;
    unrep_count[label]++;
    if(S.unrep_labels.size() < 20) S.unrep_labels.push_back(label);
    return;
  }
  // undecided over the full bound: decide it with part of the inputs fixed (reduced bound, reported as such)
  std::mt19937 rng((unsigned)seed_ * 7919u + (unsigned)S.goals);
  std::set<int> at;
  for(int f : q)
  {
    auto & x = fatoms(f);
    at.insert(x.begin(), x.end());
  }
  vector<int> va;
  for(int a : at)
    if(N[a].op == VAR || (N[a].op == FUN && !N[a].builtin)) va.push_back(a);
  int un = 0;
  for(int k = 0; k < 10; k++)
  {
    string ex;
    size_t keep = k < 5 ? 2 : va.size() / 3 + 1;
    std::shuffle(va.begin(), va.end(), rng);
    std::set<int> fixed;
    for(size_t i = keep; i < va.size(); i++) fixed.insert(va[i]);
    auto ext = [&](Enc & e) {
      string s;
      for(int a : fixed)
        if(e.atoms.count(a))
        {
          double v;
          if(wit && k % 2 == 0)
          {
            v = std::round(weval(a) * 64) / 64;
          }
          else
            v = ((int)(rng() % 33) - 16) / 8.0;
          s += "(assert (= " + sym(a) + " " + lit(mpq_class(v)) + "))\n";
        }
      return s;
    };
    Model mm;
    Res rr = query(q, 1500, &mm, nf ? 0 : 1, -1, nullptr, ext);
    if(rr == SAT)
    {
      if(try_replay(label, *merged(mm), false))
      {
        violation_label = label;
        stop_all = true;
        throw PathAbort{2};
      }
    }
    if(rr == UNSAT) un++;
  }
  S.goals_undecided++;
  S.stage["reduced-bound-unsat"] += un;
  if(S.undecided_labels.size() < 20) S.undecided_labels.push_back(label);
}
void require(const string & label, const boolean & b)
{
  prove(label, b.id, -1);
}
void require_eq(const string & label, const real & a, const real & b)
{
  if(poisoned(a) || poisoned(b))
  {
    prove(label, 2, -1);
    return;
  }
  if(special(a) || special(b))
  {
    bool same = special(a) && special(b) && (a.c == b.c || (std::isnan(a.c) && std::isnan(b.c)));
    prove(label, same ? 1 : 0, -1);
    return;
  }
  boolean e = e_eq(a, b);
  int strong = -1;
  if(e.id > 2)
  {
    int d = t_sub(node(a), node(b));
    int m = mk_const(mpq_class(1, 16));
    strong = f_or(fmk(F_LT, t_sub(m, d)), fmk(F_LT, t_add(d, m)));
  }
  prove(label, e.id, strong);
}
void require_le(const string & label, const real & a, const real & b)
{
  boolean e = e_le(a, b);
  int strong = -1;
  if(e.id > 2)
  {
    int d = t_sub(node(b), node(a));
    strong = fmk(F_LT, t_add(d, mk_const(mpq_class(1, 16))));
  }
  prove(label, e.id, strong);
}
void fail(const string & label)
{
  prove(label, 0, -1);
  throw PathAbort{2};
}
struct eigen_assertion : std::logic_error
{
  using std::logic_error::logic_error;
};
void eigen_fail(const char * what, const char * file, int line)
{
  string f = file;
  size_t k = f.rfind('/');
  fail(string("eigen-assertion ") + what + " at " + (k == string::npos ? f : f.substr(k + 1)) + ":" + std::to_string(line));
}
static jmp_buf jb;
static string jb_msg;
} // namespace symx
// std::vector index errors (compiled with _GLIBCXX_ASSERTIONS): leave the path without unwinding
namespace std
{
void __glibcxx_assert_fail(const char * file, int line, const char * fn, const char * cond) noexcept
{
  symx::jb_msg = std::string("out-of-range access: ") + (cond ? cond : "") + " (line " + std::to_string(line) + ")";
  (void)file;
  (void)fn;
  longjmp(symx::jb, 1);
}
} // namespace std
namespace symx
{
static string js(const string & s)
{
  string r = "\"";
  for(char c : s)
  {
    if(c == '"' || c == '\\') r += '\\';
    if(c == '\n')
      r += "\\n";
    else if((unsigned char)c >= 32)
      r += c;
  }
  return r + "\"";
}
static void dump_stats(const string & file, bool complete)
{
  std::ofstream o(file);
  auto mapj = [&](const std::map<string, long> & m) {
    string s = "{";
    for(auto & kv : m) s += (s.size() > 1 ? "," : "") + js(kv.first) + ":" + std::to_string(kv.second);
    return s + "}";
  };
  auto vecj = [&](const vector<string> & v) {
    string s = "[";
    for(auto & x : v) s += (s.size() > 1 ? "," : "") + js(x);
    return s + "]";
  };
  vector<string> cok(S.cover_ok.begin(), S.cover_ok.end());
  o << "{\"case\":" << js(cur_case) << ",\"complete\":" << (complete ? "true" : "false") << ",\"paths\":" << S.paths
    << ",\"infeasible\":" << S.infeasible << ",\"outbound\":" << S.outbound << ",\"decisions\":" << S.decisions
    << ",\"forks\":" << S.forks << ",\"implied_by_sign\":" << S.implied_sign << ",\"implied_by_solver\":"
    << S.implied_solver << ",\"queries\":" << S.q_total << ",\"q_sat\":" << S.q_sat << ",\"q_unsat\":" << S.q_unsat
    << ",\"q_unknown\":" << S.q_unknown << ",\"feas_unknown\":" << S.feas_unknown << ",\"witness_hits\":"
    << S.witness_hits << ",\"solver_s\":" << S.solver_s << ",\"goals\":" << S.goals << ",\"goals_proved\":"
    << S.goals_proved << ",\"goals_closed_by_normalisation\":" << S.goals_norm << ",\"goals_cached\":" << S.goals_cached
    << ",\"goals_undecided\":" << S.goals_undecided << ",\"unreproduced\":" << S.unreproduced
    << ",\"terms\":" << N.size() << ",\"max_path_constraints\":" << S.max_pc << ",\"wall_s\":" << now_s()
    << ",\"labels\":" << mapj(S.by_label) << ",\"stages\":" << mapj(S.stage) << ",\"counters\":" << mapj(S.counters)
    << ",\"covers\":" << mapj(S.covers) << ",\"covers_confirmed\":" << vecj(cok) << ",\"undecided\":"
    << vecj(S.undecided_labels) << ",\"unreproduced_labels\":" << vecj(S.unrep_labels) << ",\"samples\":"
    << vecj(S.samples) << ",\"violation\":" << js(violation_label) << ",\"violation_file\":" << js(violation_file)
    << "}\n";
}
static int body(int argc, char ** argv, void (*fn)(), const vector<string> & cases)
{
  string stats = "/dev/stdout";
  for(int i = 1; i < argc; i++)
  {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if(a == "--list")
    {
      for(auto & c : cases) std::cout << c << std::endl;
      return 0;
    }
    else if(a == "--case")
      cur_case = nx();
    else if(a == "--stats")
      stats = nx();
    else if(a == "--out")
      out_dir = nx();
    else if(a == "--replay-cmd")
      replay_cmd = nx();
    else if(a == "--budget")
      budget_s = atof(nx().c_str());
    else if(a == "--seed")
      seed_ = atol(nx().c_str());
    else if(a == "--feas-ms")
      feas_ms = atoi(nx().c_str());
    else if(a == "--goal-ms")
      goal_ms = atoi(nx().c_str());
    else if(a == "--terms")
      TERM_LIMIT = atol(nx().c_str());
    else if(a == "--qlog")
      qlog = fopen(nx().c_str(), "w");
  }
  signal(SIGPIPE, SIG_IGN);
  t_start = std::chrono::steady_clock::now();
  bool complete = true;
  std::ofstream devnull("/dev/null");
  auto * ob = std::cout.rdbuf(devnull.rdbuf());
  while(true)
  {
    pos_ = 0;
    pc.clear();
    known.clear();
    mask.clear();
    path_choices.clear();
    path_inputs.clear();
    path_ufs.clear();
    path_covers.clear();
    wit = prefix.empty() ? std::make_shared<Model>() : nullptr;
    wev.reset();
    int why = -1;
    if(setjmp(jb))
    {
      try
      {
        fail(jb_msg);
      }
      catch(PathAbort & p)
      {
        why = p.why;
      }
    }
    else
    {
      try
      {
        fn();
      }
      catch(PathAbort & p)
      {
        why = p.why;
      }
      catch(const std::exception & e)
      {
        try
        {
          fail(string("uncaught-exception: ") + e.what());
        }
        catch(PathAbort & p)
        {
          why = p.why;
        }
      }
    }
    S.max_dec = std::max(S.max_dec, prefix.size());
    if(why == 0)
      S.infeasible++;
    else if(why == 1)
      S.outbound++;
    else if(why == 3)
    {
      S.outbound++;
      S.counters["decision-limit"]++;
      complete = false;
    }
    else if(why == 4)
      complete = false;
    else if(why == 5)
    {
      S.counters["unsupported"]++;
      complete = false;
    }
    else
      S.paths++;
    if(why == -1)
      for(auto & c : path_covers)
      {
        S.covers[c]++;
        if(!S.cover_ok.count(c))
        {
          Model m;
          if(pc.empty() || query(pc, 2000, &m, 0) == SAT) S.cover_ok.insert(c);
        }
      }
    if(stop_all)
    {
      complete = false;
      break;
    }
    // next path
    while(!prefix.empty())
    {
      Dec & d = prefix.back();
      if(d.kind == 1)
      {
        if(d.val + 1 < d.n)
        {
          d.val++;
          break;
        }
      }
      else if(d.open)
      {
        d.open = false;
        d.val = !d.val;
        break;
      }
      prefix.pop_back();
    }
    if(prefix.empty()) break;
    if(S.paths + S.outbound >= path_limit)
    {
      complete = false;
      break;
    }
    if(N.size() > 3000000)
    {
      complete = false;
      break;
    }
  }
  std::cout.rdbuf(ob);
  z3.kill_();
  cvc.kill_();
  dump_stats(stats, complete);
  return violation_label.empty() ? 0 : 1;
}
int run_main(int argc, char ** argv, void (*fn)(), const vector<string> & cases)
{
  // a large stack: Eigen recursion and term traversal
  rlimit rl{1ul << 30, 1ul << 30};
  (void)rl;
  int rc = 0;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ul << 29);
  struct A
  {
    int c;
    char ** v;
    void (*f)();
    const vector<string> * cs;
    int * rc;
  } a{argc, argv, fn, &cases, &rc};
  pthread_t th;
  pthread_create(
      &th, &at,
      [](void * p) -> void * {
        A * a = (A *)p;
        *a->rc = body(a->c, a->v, a->f, *a->cs);
        return nullptr;
      },
      &a);
  pthread_join(th, nullptr);
  std::_Exit(rc);
}
} // namespace symx

// heap memory is handed out with a fill pattern that symx::real recognises as uninitialised
extern "C" void * __libc_malloc(size_t);
extern "C" void * malloc(size_t n)
{
  void * p = __libc_malloc(n);
  if(p) memset(p, 0xFE, n);
  return p;
}

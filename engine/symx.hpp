// symx: a symbolic scalar with the interface of `double`.
//
// The checks compile the repository's own sources with `double` spelled as symx::real (see prelude.hpp), so the code
// under test -- and the Eigen kernels it calls -- is executed symbolically from its source: every arithmetic operation
// builds a term, every conversion of a comparison to bool is a decision that forks the path, and an SMT solver decides
// feasibility and the assertions of the harness.
//
// Semantics: "extended reals".  Finite values are exact reals; NaN and +-infinity are tracked as IEEE specials
// (0/0, x/0, sqrt(<0), log(<=0), inf-inf, 0*inf ...).  Rounding and overflow are outside the model.
#pragma once
#include <cstdint>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <initializer_list>
#include <vector>

namespace symx
{
struct real;
struct boolean;

// trivially default constructible on purpose: value-initialisation yields the constant 0 (as for double) while
// default-initialised storage keeps the fill pattern of the allocator / the stack and is recognised as uninitialised.
struct real
{
  uint32_t tag; // 0: constant c, 1: term id, anything else: uninitialised ("poison")
  int32_t id;
  double c;

  real() = default;
  constexpr real(const real &) = default;
  constexpr real & operator=(const real &) = default;
  template<class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
  constexpr real(T v) : tag(0), id(0), c(static_cast<double>(v))
  {
  }
  explicit operator double() const;
  explicit operator float() const;
  explicit operator int() const;
  explicit operator long() const;
  explicit operator long long() const;
  explicit operator unsigned() const;
  explicit operator unsigned long() const;
  explicit operator bool() const;

  constexpr real & operator+=(const real & o);
  constexpr real & operator-=(const real & o);
  constexpr real & operator*=(const real & o);
  constexpr real & operator/=(const real & o);
  real & operator++();
  real & operator--();
  constexpr real operator-() const;
  constexpr real operator+() const
  {
    return *this;
  }
};
static_assert(std::is_trivial<real>::value, "symx::real must stay trivial");

// A first-order formula over reals; converting it to bool is a path decision.
struct boolean
{
  int id; // formula id; 0 = false, 1 = true
  constexpr boolean() : id(0) {}
  constexpr boolean(bool b) : id(b ? 1 : 0) {}
  static boolean make(int i)
  {
    boolean b;
    b.id = i;
    return b;
  }
  operator bool() const;
};

real e_add(const real &, const real &);
real e_sub(const real &, const real &);
real e_mul(const real &, const real &);
real e_div(const real &, const real &);
real e_neg(const real &);
boolean e_lt(const real &, const real &);
boolean e_le(const real &, const real &);
boolean e_eq(const real &, const real &);
boolean e_not(const boolean &);
boolean e_and(const boolean &, const boolean &);
boolean e_or(const boolean &, const boolean &);

#define SYMX_BIN(OP, FN)                              \
  constexpr inline real operator OP(const real & a, const real & b) \
  {                                                   \
    if(__builtin_is_constant_evaluated()) return real(a.c OP b.c); \
    return FN(a, b);                                  \
  }
SYMX_BIN(+, e_add)
SYMX_BIN(-, e_sub)
SYMX_BIN(*, e_mul)
SYMX_BIN(/, e_div)
#undef SYMX_BIN
constexpr inline real real::operator-() const
{
  if(__builtin_is_constant_evaluated()) return real(-c);
  return e_neg(*this);
}
constexpr inline real & real::operator+=(const real & o)
{
  return *this = *this + o;
}
constexpr inline real & real::operator-=(const real & o)
{
  return *this = *this - o;
}
constexpr inline real & real::operator*=(const real & o)
{
  return *this = *this * o;
}
constexpr inline real & real::operator/=(const real & o)
{
  return *this = *this / o;
}
inline real & real::operator++()
{
  return *this = *this + real(1);
}
inline real & real::operator--()
{
  return *this = *this - real(1);
}
inline boolean operator<(const real & a, const real & b)
{
  return e_lt(a, b);
}
inline boolean operator<=(const real & a, const real & b)
{
  return e_le(a, b);
}
inline boolean operator>(const real & a, const real & b)
{
  return e_lt(b, a);
}
inline boolean operator>=(const real & a, const real & b)
{
  return e_le(b, a);
}
inline boolean operator==(const real & a, const real & b)
{
  return e_eq(a, b);
}
inline boolean operator!=(const real & a, const real & b)
{
  return e_not(e_eq(a, b));
}
inline boolean operator!(const boolean & a)
{
  return e_not(a);
}

real sqrt(const real &);
real abs(const real &);
inline real fabs(const real & a)
{
  return abs(a);
}
real pow(const real &, const real &);
real exp(const real &);
real log(const real &);
real sin(const real &);
real cos(const real &);
real tan(const real &);
real atan(const real &);
real tanh(const real &);
real floor(const real &);
real ceil(const real &);
real round(const real &);
real fmin(const real &, const real &);
real fmax(const real &, const real &);
real hypot(const real &, const real &);
real copysign(const real &, const real &);
bool isnan(const real &);
bool isinf(const real &);
bool isfinite(const real &);
bool signbit(const real &);
std::string to_str(const real &);
std::ostream & operator<<(std::ostream &, const real &);
std::istream & operator>>(std::istream &, real &);

// ---- harness interface -------------------------------------------------------------------------------------------
real input(const std::string & name);
int choose(const std::string & name, int n);
real ufun(const std::string & name, const std::vector<real> & args);
void assume(const boolean &);
void require(const std::string & label, const boolean &);
void require_eq(const std::string & label, const real & a, const real & b);
void require_le(const std::string & label, const real & a, const real & b);
[[noreturn]] void fail(const std::string & label);
[[noreturn]] void stop_path(); // ends this path as out of scope (bound reached); counted
void cover(const std::string & label); // reachability witness
void count(const std::string & what, long n = 1);
bool native_mode();
bool is_finite_term(const real &);
std::string case_name();
real parse(const std::string & text); // a value written with operator<<
int run_main(int argc, char ** argv, void (*fn)(), const std::vector<std::string> & cases);
} // namespace symx

namespace std
{
template<>
class numeric_limits<symx::real>
{
  using D = numeric_limits<double>;

public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
  static constexpr bool has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = true;
  static constexpr bool is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_to_nearest;
  static constexpr int digits = D::digits, digits10 = D::digits10, max_digits10 = D::max_digits10, radix = 2;
  static constexpr int min_exponent = D::min_exponent, max_exponent = D::max_exponent;
  static constexpr int min_exponent10 = D::min_exponent10, max_exponent10 = D::max_exponent10;
  // underflow is not modelled: the tests of Eigen's kernels against the smallest normal number are tests against zero
  static constexpr symx::real(min)() noexcept
  {
    return 0.0;
  }
  static constexpr symx::real(max)() noexcept
  {
    return D::max();
  }
  static constexpr symx::real lowest() noexcept
  {
    return D::lowest();
  }
  static constexpr symx::real epsilon() noexcept
  {
    return D::epsilon();
  }
  static constexpr symx::real round_error() noexcept
  {
    return 0.5;
  }
  static constexpr symx::real infinity() noexcept
  {
    return D::infinity();
  }
  static constexpr symx::real quiet_NaN() noexcept
  {
    return D::quiet_NaN();
  }
  static constexpr symx::real denorm_min() noexcept
  {
    return D::denorm_min();
  }
};
#define SYMX_STD1(F)                          \
  inline symx::real F(const symx::real & a)   \
  {                                           \
    return symx::F(a);                        \
  }
SYMX_STD1(sqrt)
SYMX_STD1(abs)
SYMX_STD1(fabs)
SYMX_STD1(exp)
SYMX_STD1(log)
SYMX_STD1(sin)
SYMX_STD1(cos)
SYMX_STD1(tan)
SYMX_STD1(atan)
SYMX_STD1(tanh)
SYMX_STD1(floor)
SYMX_STD1(ceil)
SYMX_STD1(round)
#undef SYMX_STD1
#define SYMX_STD2(F)                                                  \
  inline symx::real F(const symx::real & a, const symx::real & b)     \
  {                                                                   \
    return symx::F(a, b);                                             \
  }                                                                   \
  template<class T, enable_if_t<is_arithmetic<T>::value, int> = 0>    \
  inline symx::real F(const symx::real & a, T b)                      \
  {                                                                   \
    return symx::F(a, symx::real(b));                                 \
  }                                                                   \
  template<class T, enable_if_t<is_arithmetic<T>::value, int> = 0>    \
  inline symx::real F(T a, const symx::real & b)                      \
  {                                                                   \
    return symx::F(symx::real(a), b);                                 \
  }
SYMX_STD2(pow)
SYMX_STD2(fmin)
SYMX_STD2(fmax)
SYMX_STD2(hypot)
SYMX_STD2(copysign)
#undef SYMX_STD2
inline bool isnan(const symx::real & a)
{
  return symx::isnan(a);
}
inline bool isinf(const symx::real & a)
{
  return symx::isinf(a);
}
inline bool isfinite(const symx::real & a)
{
  return symx::isfinite(a);
}
inline bool signbit(const symx::real & a)
{
  return symx::signbit(a);
}
inline string to_string(const symx::real & a)
{
  return symx::to_str(a);
}
} // namespace std

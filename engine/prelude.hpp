// Included first by every harness.  Symbolic build (SYMX): all standard and Eigen headers are read with the real
// `double`, then `double` and Eigen's double typedefs are re-spelled, then the repository's sources follow.
// Native build: plain double; used to replay a solver model against the code as users run it.
#pragma once
#ifdef SYMX
#  include <stdexcept>
#  include <string>
namespace symx
{
struct eigen_assertion : std::logic_error
{
  using std::logic_error::logic_error;
};
[[noreturn]] void eigen_fail(const char * what, const char * file, int line);
} // namespace symx
#  define eigen_assert(x) \
    do \
    { \
      if(!(x)) ::symx::eigen_fail(#x, __FILE__, __LINE__); \
    } while(0)
#  define EIGEN_MAX_ALIGN_BYTES 16
#endif
#include <bits/stdc++.h>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/StdVector>
#ifdef SYMX
#  include "symx.hpp"
#else
#  include "native.hpp"
#endif

#ifdef SYMX
namespace Eigen
{
namespace numext
{
// Eigen's triangular solver skips an elimination step when the right-hand side entry is exactly zero; performing the
// step is equivalent (the diagonal is nonzero), so this optimisation does not fork the path.
template<>
inline bool not_equal_strict(const symx::real & x, const symx::real & y)
{
  if(x.tag == 0 && y.tag == 0) return x.c != y.c;
  return true;
}
} // namespace numext
template<>
struct NumTraits<symx::real> : GenericNumTraits<symx::real>
{
  typedef symx::real Real;
  typedef symx::real NonInteger;
  typedef symx::real Nested;
  typedef symx::real Literal;
  enum
  {
    IsComplex = 0,
    IsInteger = 0,
    IsSigned = 1,
    RequireInitialization = 0,
    ReadCost = 1,
    AddCost = 1,
    MulCost = 1
  };
  static inline Real epsilon()
  {
    return std::numeric_limits<double>::epsilon();
  }
  static inline Real dummy_precision()
  {
    return 1e-12;
  }
  static inline Real highest()
  {
    return std::numeric_limits<double>::max();
  }
  static inline Real lowest()
  {
    return std::numeric_limits<double>::lowest();
  }
  static inline int digits10()
  {
    return 15;
  }
};
#  define SYMX_TD(N) using sx##N##d
using sxMatrixXd = Matrix<symx::real, Dynamic, Dynamic>;
using sxMatrix2d = Matrix<symx::real, 2, 2>;
using sxMatrix3d = Matrix<symx::real, 3, 3>;
using sxMatrix4d = Matrix<symx::real, 4, 4>;
using sxMatrix2Xd = Matrix<symx::real, 2, Dynamic>;
using sxMatrix3Xd = Matrix<symx::real, 3, Dynamic>;
using sxMatrix4Xd = Matrix<symx::real, 4, Dynamic>;
using sxMatrixX2d = Matrix<symx::real, Dynamic, 2>;
using sxMatrixX3d = Matrix<symx::real, Dynamic, 3>;
using sxMatrixX4d = Matrix<symx::real, Dynamic, 4>;
using sxVectorXd = Matrix<symx::real, Dynamic, 1>;
using sxVector2d = Matrix<symx::real, 2, 1>;
using sxVector3d = Matrix<symx::real, 3, 1>;
using sxVector4d = Matrix<symx::real, 4, 1>;
using sxRowVectorXd = Matrix<symx::real, 1, Dynamic>;
using sxRowVector2d = Matrix<symx::real, 1, 2>;
using sxRowVector3d = Matrix<symx::real, 1, 3>;
using sxRowVector4d = Matrix<symx::real, 1, 4>;
using sxArrayXd = Array<symx::real, Dynamic, 1>;
using sxArrayXXd = Array<symx::real, Dynamic, Dynamic>;
using sxArray2d = Array<symx::real, 2, 1>;
using sxArray3d = Array<symx::real, 3, 1>;
using sxArray4d = Array<symx::real, 4, 1>;
} // namespace Eigen
#  define MatrixXd sxMatrixXd
#  define Matrix2d sxMatrix2d
#  define Matrix3d sxMatrix3d
#  define Matrix4d sxMatrix4d
#  define Matrix2Xd sxMatrix2Xd
#  define Matrix3Xd sxMatrix3Xd
#  define Matrix4Xd sxMatrix4Xd
#  define MatrixX2d sxMatrixX2d
#  define MatrixX3d sxMatrixX3d
#  define MatrixX4d sxMatrixX4d
#  define VectorXd sxVectorXd
#  define Vector2d sxVector2d
#  define Vector3d sxVector3d
#  define Vector4d sxVector4d
#  define RowVectorXd sxRowVectorXd
#  define RowVector2d sxRowVector2d
#  define RowVector3d sxRowVector3d
#  define RowVector4d sxRowVector4d
#  define ArrayXd sxArrayXd
#  define ArrayXXd sxArrayXXd
#  define Array2d sxArray2d
#  define Array3d sxArray3d
#  define Array4d sxArray4d
// durations of type std::chrono::duration<real>
namespace std
{
namespace chrono
{
template<>
struct treat_as_floating_point<symx::real> : true_type
{
};
} // namespace chrono
} // namespace std
#endif

// The clock is part of the environment: a stub whose reading is chosen by the harness (default: a counter).
namespace symx
{
#ifdef SYMX
using clk_real = real;
#else
using clk_real = double;
#endif
inline clk_real (*clock_hook)() = nullptr; // nanoseconds
struct stub_clock
{
  using rep = clk_real;
  using period = std::nano;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<stub_clock>;
  static constexpr bool is_steady = false;
  static time_point now()
  {
    static long tick = 0;
    clk_real v = clock_hook ? clock_hook() : clk_real(1000 * ++tick);
    return time_point(duration(v));
  }
};
} // namespace symx
namespace std
{
namespace chrono
{
using symx_system_clock = ::symx::stub_clock;
}
} // namespace std
#define system_clock symx_system_clock
#define steady_clock symx_system_clock
#define high_resolution_clock symx_system_clock

// Files are part of the environment too: what the code writes is kept in memory, nothing reaches the file system.
namespace symx
{
inline std::map<std::string, std::string> & files()
{
  static std::map<std::string, std::string> f;
  return f;
}
struct memory_file : std::ostringstream
{
  std::string name_;
  bool open_ = false;
  memory_file() {}
  explicit memory_file(const std::string & n, std::ios_base::openmode m = std::ios_base::out)
  {
    open(n, m);
  }
  memory_file(const memory_file &) = delete;
  memory_file(memory_file &&) = default;
  memory_file & operator=(memory_file &&) = default;
  ~memory_file()
  {
    close();
  }
  void open(const std::string & n, std::ios_base::openmode m = std::ios_base::out)
  {
    if(open_)
    {
      setstate(std::ios_base::failbit);
      return;
    }
    name_ = n;
    open_ = true;
    clear();
    str((m & std::ios_base::app) ? files()[n] : std::string());
    if(m & std::ios_base::app) seekp(0, std::ios_base::end);
    files()[n] = str();
  }
  void close()
  {
    if(open_) files()[name_] = str();
    open_ = false;
  }
  bool is_open() const
  {
    return open_;
  }
};
} // namespace symx
namespace std
{
using symx_ofstream = ::symx::memory_file;
}
#define ofstream symx_ofstream

#ifdef SYMX
#  define double ::symx::real
using vbool = ::symx::boolean;
#else
using vbool = bool;
#endif

namespace V
{
using ::symx::assume;
using ::symx::case_name;
using ::symx::choose;
using ::symx::count;
using ::symx::cover;
using ::symx::fail;
using ::symx::input;
using ::symx::native_mode;
using ::symx::parse;
using ::symx::require;
using ::symx::require_eq;
using ::symx::require_le;
using ::symx::stop_path;
using ::symx::ufun;
#ifdef SYMX
inline vbool And(const vbool & a, const vbool & b)
{
  return symx::e_and(a, b);
}
inline vbool Or(const vbool & a, const vbool & b)
{
  return symx::e_or(a, b);
}
inline vbool Not(const vbool & a)
{
  return symx::e_not(a);
}
inline bool finite(const double & a)
{
  return symx::is_finite_term(a);
}
#else
inline bool And(bool a, bool b)
{
  return a && b;
}
inline bool Or(bool a, bool b)
{
  return a || b;
}
inline bool Not(bool a)
{
  return !a;
}
inline bool finite(double a)
{
  return std::isfinite(a);
}
#endif
inline vbool Imp(const vbool & a, const vbool & b)
{
  return Or(Not(a), b);
}
} // namespace V

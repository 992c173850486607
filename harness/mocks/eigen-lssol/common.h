#pragma once
#include "../recorder.h"
namespace Eigen
{
namespace lssol
{
enum class eType
{
  FP,
  LP,
  LS1,
  LS2
};
#define MOCK_LSSOL_OPTION(type, name) \
  type name() const { return name##_; } \
  void name(type v) { name##_ = v; }
/** What the solvers of the library have in common: l <= [x; C x] <= u */
class Common
{
public:
  static inline thread_local std::vector<Common *> made; // the two solvers of a wrapper
  Common() { made.push_back(this); }
  MOCK_LSSOL_OPTION(double, crashTol)
  MOCK_LSSOL_OPTION(int, feasibilityMaxIter)
  MOCK_LSSOL_OPTION(double, feasibilityTol)
  MOCK_LSSOL_OPTION(double, infiniteBnd)
  MOCK_LSSOL_OPTION(double, infiniteStep)
  MOCK_LSSOL_OPTION(int, optimalityMaxIter)
  MOCK_LSSOL_OPTION(bool, persistence)
  MOCK_LSSOL_OPTION(int, printLevel)
  MOCK_LSSOL_OPTION(double, rankTol)
  MOCK_LSSOL_OPTION(bool, warm)
  void forceMinSize(bool v) { force_ = v; }
  bool forced() const { return force_; }
  const VectorXd & result() const { return res_; }
  int inform() const { return inform_; }
  void print_inform() const {}

protected:
  double crashTol_ = 0.01, feasibilityTol_ = 1e-8, infiniteBnd_ = 1e10, infiniteStep_ = 1e10, rankTol_ = 1e-8;
  int feasibilityMaxIter_ = 50, optimalityMaxIter_ = 50, printLevel_ = 0, inform_ = 0;
  bool persistence_ = false, warm_ = false, force_ = true;
  int n_ = 0, m_ = 0;
  VectorXd res_;
  void dims(int n, int m)
  {
    n_ = n;
    m_ = m;
    res_ = VectorXd::Zero(n);
  }
  bool run(const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    auto & S = mock::current();
    VT_CHECK(n_ == S.n, "backend-declared-size", n_, " variables of ", S.n);
    VT_CHECK(C.rows() == m_ && C.cols() == n_ && l.size() == n_ + m_ && u.size() == n_ + m_, "backend-constraint-size",
             C.rows(), " ", l.size(), " ", u.size(), " for ", m_);
    mock::Rows R;
    for(Index k = 0; k < m_; ++k)
      R.two(VectorXd(C.row(k).transpose()), l[n_ + k], u[n_ + k]);
    bool ok = mock::finish(R, l.head(n_), u.head(n_), res_);
    inform_ = ok ? 0 : 3;
    return ok;
  }
};
} // namespace lssol
} // namespace Eigen

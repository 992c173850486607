#pragma once
#include "common.h"
namespace Eigen
{
/** min ||A x - b||; A and b are overwritten by the resolution. */
class LSSOL_LS : public lssol::Common
{
public:
  void resize(int n, int m, lssol::eType t)
  {
    VT_CHECK(t == lssol::eType::LS1, "backend-type", static_cast<int>(t));
    dims(n, m);
  }
  template<typename MA, typename VB>
  bool solve(MA && A, VB && b, const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    vt::AllowMalloc am;
    auto & S = mock::current();
    VT_CHECK(A.cols() == n_ && b.size() == A.rows(), "backend-objective-size", A.rows(), "x", A.cols(), " ", b.size());
    VT_CHECK(S.hasObj || S.ls->minNorm, "backend-choice", "least-squares solver used without objective");
    S.ls->A = A;
    S.ls->b = b;
    bool ok = run(C, l, u);
    // the library leaves a factorization there
    A.setConstant(0.7);
    b.setConstant(-0.3);
    return ok;
  }
};
} // namespace Eigen

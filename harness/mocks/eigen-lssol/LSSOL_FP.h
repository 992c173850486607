#pragma once
#include "common.h"
namespace Eigen
{
/** A feasible point. */
class LSSOL_FP : public lssol::Common
{
public:
  void resize(int n, int m) { dims(n, m); }
  bool solve(const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    vt::AllowMalloc am;
    auto & S = mock::current();
    VT_CHECK(!S.hasObj, "backend-choice", "feasible point solver used although there is an objective");
    S.ls->A.resize(0, n_);
    S.ls->b.resize(0);
    return run(C, l, u);
  }
};
} // namespace Eigen

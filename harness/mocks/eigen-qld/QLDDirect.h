#pragma once
#include "../recorder.h"
namespace Eigen
{
/** min 1/2 x'Qx + c'x  s.t. A_eq x + b_eq = 0, A_ineq x + b_ineq >= 0, xl <= x <= xu; the equalities come first. */
class QLDDirect
{
public:
  void problem(int nrvar, int nreq, int nrineq, int ldq = -1, int lda = -1)
  {
    n_ = nrvar;
    eq_ = nreq;
    ineq_ = nrineq;
    ldq_ = std::max(ldq, nrvar);
    (void)lda;
    res_ = VectorXd::Zero(n_);
  }
  template<typename MQ, typename VC, typename MA, typename VB, typename VL, typename VU>
  bool solve(const MatrixBase<MQ> & Q, const MatrixBase<VC> & c, const MatrixBase<MA> & A, const MatrixBase<VB> & b,
             const MatrixBase<VL> & xl, const MatrixBase<VU> & xu, int nreq, bool isDecomp = false, double = 1e-12)
  {
    vt::AllowMalloc am;
    auto & S = mock::current();
    VT_CHECK(n_ == S.n && nreq == eq_, "backend-declared-size", n_, " variables, ", nreq, " equalities of ", eq_);
    VT_CHECK(A.rows() == eq_ + ineq_ && A.cols() == n_ && b.size() == A.rows(), "backend-constraint-size", A.rows(), " ", b.size());
    VT_CHECK(Q.derived().outerStride() <= ldq_, "backend-leading-dimension", Q.derived().outerStride(), " > ", ldq_);
    MatrixXd H = Q;
    if(isDecomp)
    {
      MatrixXd R = H.template triangularView<Upper>();
      H = R.transpose() * R;
    }
    mock::quadratic(H, c);
    mock::Rows R;
    for(Index k = 0; k < A.rows(); ++k)
    {
      VectorXd a = A.row(k).transpose();
      if(k < eq_)
        R.eq(a, -b[k]);
      else
        R.half(a, -b[k]);
    }
    bool ok = mock::finish(R, xl, xu, res_);
    fail_ = ok ? 0 : 1;
    return ok;
  }
  int fail() const { return fail_; }
  const VectorXd & result() const { return res_; }

private:
  int n_ = 0, eq_ = 0, ineq_ = 0, ldq_ = 0, fail_ = 0;
  VectorXd res_;
};
} // namespace Eigen

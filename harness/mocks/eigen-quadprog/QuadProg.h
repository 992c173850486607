#pragma once
#include "../recorder.h"
namespace Eigen
{
/** min 1/2 x'Qx + c'x  s.t. Aeq x = beq, Aineq x <= bineq; with isDecomp, Q stands for R^-1 where Q = R'R. */
class QuadProgDense
{
public:
  void problem(int nrvar, int nreq, int nrineq)
  {
    n_ = nrvar;
    eq_ = nreq;
    ineq_ = nrineq;
    res_ = VectorXd::Zero(n_);
  }
  template<typename MQ, typename VC, typename ME, typename VE, typename MI, typename VI>
  bool solve(const MatrixBase<MQ> & Q, const MatrixBase<VC> & c, const MatrixBase<ME> & Aeq, const MatrixBase<VE> & beq,
             const MatrixBase<MI> & Ain, const MatrixBase<VI> & bin, bool isDecomp = false)
  {
    vt::AllowMalloc am;
    auto & S = mock::current();
    VT_CHECK(n_ == S.n, "backend-declared-size", n_, " variables of ", S.n);
    VT_CHECK(Aeq.rows() == eq_ && beq.size() == eq_ && Aeq.cols() == n_, "backend-equality-size", Aeq.rows(), " ", beq.size());
    VT_CHECK(Ain.rows() == ineq_ && bin.size() == ineq_ && Ain.cols() == n_, "backend-inequality-size", Ain.rows(), " ", bin.size(), " for ", ineq_);
    MatrixXd H = Q;
    if(isDecomp)
    {
      VT_CHECK(H.rows() == n_ && H.cols() == n_, "backend-objective-size", H.rows(), "x", H.cols());
      if(!H.allFinite() || (H.size() && H.cwiseAbs().maxCoeff() > 1e8))
      {
        S.degenerate = true;
        H.setZero(n_, n_);
      }
      else
      {
        MatrixXd R = H.template triangularView<Upper>();
        VT_CHECK((H - R).norm() == 0, "backend-factor-shape", vt::show(H));
        R = R.template triangularView<Upper>().solve(MatrixXd::Identity(n_, n_)).eval();
        H = R.transpose() * R;
      }
    }
    if(!S.degenerate)
      mock::quadratic(H, c);
    else
    {
      S.ls->A.resize(0, n_);
      S.ls->b.resize(0);
    }
    mock::Rows R;
    const double inf = std::numeric_limits<double>::infinity();
    for(Index k = 0; k < Aeq.rows(); ++k)
      R.eq(Aeq.row(k).transpose(), beq[k]);
    for(Index k = 0; k < Ain.rows(); ++k)
      R.two(VectorXd(Ain.row(k).transpose()), -inf, bin[k]);
    bool ok = mock::finish(R, VectorXd::Constant(n_, -inf), VectorXd::Constant(n_, inf), res_);
    fail_ = ok ? 0 : 1;
    return ok;
  }
  int fail() const { return fail_; }
  const VectorXd & result() const { return res_; }

private:
  int n_ = 0, eq_ = 0, ineq_ = 0, fail_ = 0;
  VectorXd res_;
};
} // namespace Eigen

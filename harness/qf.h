// A user-defined quadratic function of several variables, with exact derivatives, and a feed-forward provider.
#pragma once
#include "pool.h"
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/abstract/OutputSelector.h>

namespace vt
{
/** f_i(x) = sum_k (1/2 x_k' Q_ik x_k + A_ik x_k) + c_i. Caches hold NaN until they are updated. */
class QF : public tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>
{
public:
  DISABLE_OUTPUTS(Output::JDot)
  SET_UPDATES(QF, Value, Jacobian, Velocity, Acc)

  std::vector<PV> x;
  std::vector<std::vector<Eigen::MatrixXd>> Q; // Q[k][i]
  std::vector<Eigen::MatrixXd> A;
  Eigen::VectorXd c;
  bool linear;
  int nVal = 0, nJac = 0; // evaluations
  int failIn = 0; // 1, 2: evaluating the value, the jacobian throws

  QF(Rng & r, int m, const std::vector<PV> & vars, bool lin = false)
  : tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>(m), x(vars), linear(lin)
  {
    registerUpdates(Update::Value, &QF::updateValue);
    registerUpdates(Update::Jacobian, &QF::updateJacobian);
    registerUpdates(Update::Velocity, &QF::updateVelocity);
    registerUpdates(Update::Acc, &QF::updateAcc);
    addOutputDependency<QF>(Output::Value, Update::Value);
    addOutputDependency<QF>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<QF>(Output::Velocity, Update::Velocity);
    addOutputDependency<QF>(Output::NormalAcceleration, Update::Acc);
    for(auto & v : x)
    {
      addVariable(v.v, lin);
      A.push_back(r.mat(m, v.p.n));
      Q.emplace_back();
      for(int i = 0; i < m; ++i)
      {
        Eigen::MatrixXd q = lin ? Eigen::MatrixXd::Zero(v.p.n, v.p.n).eval() : r.mat(v.p.n, v.p.n);
        Q.back().push_back(q + q.transpose());
      }
    }
    c = r.vec(m);
    poison();
  }

  void poison()
  {
    double nan = std::nan("");
    value_.setConstant(nan);
    velocity_.setConstant(nan);
    normalAcceleration_.setConstant(nan);
    for(auto & v : x)
      jacobian_.at(v.v.get()) = Eigen::MatrixXd::Constant(size(), v.p.n, nan);
  }

  // reference results, computed from the current values of the variables
  Eigen::VectorXd val() const
  {
    Eigen::VectorXd r = c;
    for(size_t k = 0; k < x.size(); ++k)
    {
      Eigen::VectorXd v = x[k].v->value();
      r += A[k] * v;
      for(int i = 0; i < r.size(); ++i)
        r[i] += 0.5 * v.dot(Q[k][static_cast<size_t>(i)] * v);
    }
    return r;
  }
  Eigen::MatrixXd jac(size_t k) const
  {
    Eigen::MatrixXd J = A[k];
    for(int i = 0; i < J.rows(); ++i)
      J.row(i) += (Q[k][static_cast<size_t>(i)] * x[k].v->value()).transpose();
    return J;
  }
  Eigen::VectorXd vel() const
  {
    Eigen::VectorXd r = Eigen::VectorXd::Zero(size());
    for(size_t k = 0; k < x.size(); ++k)
      r += jac(k) * dot(x[k].v)->value();
    return r;
  }
  Eigen::VectorXd nacc() const
  {
    Eigen::VectorXd r = Eigen::VectorXd::Zero(size());
    for(size_t k = 0; k < x.size(); ++k)
    {
      Eigen::VectorXd v = dot(x[k].v)->value();
      for(int i = 0; i < r.size(); ++i)
        r[i] += v.dot(Q[k][static_cast<size_t>(i)] * v);
    }
    return r;
  }

  void updateValue()
  {
    AllowMalloc am;
    if(failIn == 1)
      throw std::runtime_error("value is not available");
    ++nVal;
    value_ = val();
  }
  void updateJacobian()
  {
    AllowMalloc am;
    if(failIn == 2)
      throw std::runtime_error("jacobian is not available");
    ++nJac;
    for(size_t k = 0; k < x.size(); ++k)
      jacobian_.at(x[k].v.get()) = jac(k);
  }
  void updateVelocity()
  {
    AllowMalloc am;
    velocity_ = vel();
  }
  void updateAcc()
  {
    AllowMalloc am;
    normalAcceleration_ = nacc();
  }
};

/** Delivers the vector \p next only when it is updated. */
class Provider : public tvm::graph::abstract::Node<Provider>
{
public:
  SET_OUTPUTS(Provider, Value)
  SET_UPDATES(Provider, Value)
  Provider(const Eigen::VectorXd & v) : next(v), value_(Eigen::VectorXd::Constant(v.size(), std::nan("")))
  {
    registerUpdates(Update::Value, &Provider::updateValue);
    addOutputDependency(Output::Value, Update::Value);
  }
  const Eigen::VectorXd & value() const { return value_; }
  void updateValue() { value_ = next; }
  Eigen::VectorXd next;

private:
  Eigen::VectorXd value_;
};

/** A few non-overlapping variables of the pool, with their derivatives kept alive. */
inline std::vector<PV> pickVars(Rng & r, Pool & P, int maxN, int maxOrder, double pSub)
{
  std::vector<PV> res;
  int n = r.i(1, maxN);
  for(int k = 0; k < n; ++k)
  {
    auto v = P.any(maxOrder, pSub);
    bool ok = true;
    for(auto & y : res)
      ok = ok && !y.p.intersects(v.p);
    if(ok)
      res.push_back(v);
  }
  return res;
}
} // namespace vt

// Functions without updates and checks of functions.
//  -DFOCUS=1 U01 UpdatelessFunction   2 U02 checkJacobian, checkVelocity, checkNormalAcceleration, checkFunction
//  3 D01 values of the outputs of a problem
#include "pool.h"
#include <iostream>
#include <set>
#include <sstream>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/UpdatelessFunction.h>
#include <tvm/utils/checkFunction.h>
#if FOCUS == 3
#  include "qf.h"
#  include <tvm/LinearizedControlProblem.h>
#  include <tvm/diagnostic/GraphProbe.h>
#  include <tvm/function/BasicLinearFunction.h>
#  include <tvm/function/IdentityFunction.h>
#  include <tvm/task_dynamics/Constant.h>
#  include <tvm/task_dynamics/None.h>
#  include <tvm/task_dynamics/Proportional.h>
#  include <tvm/task_dynamics/ProportionalDerivative.h>
#  include <tvm/task_dynamics/VelocityDamper.h>
#endif

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using utils::CheckOptions;
using utils::UpdatelessFunction;

namespace
{
const double NaN = std::nan("");

/** Gathers the values and derivatives of variables when it is updated. */
class Gather : public graph::abstract::Node<Gather>
{
public:
  SET_OUTPUTS(Gather, X, V)
  SET_UPDATES(Gather, X, V)
  std::vector<VariablePtr> xs;
  VectorXd x, v;

  explicit Gather(const std::vector<VariablePtr> & vars) : xs(vars)
  {
    registerUpdates(Update::X, &Gather::updateX);
    registerUpdates(Update::V, &Gather::updateV);
    addOutputDependency<Gather>(Output::X, Update::X);
    addOutputDependency<Gather>(Output::V, Update::V);
    int n = 0, t = 0;
    for(auto & k : xs)
    {
      n += k->size();
      t += k->space().tSize();
    }
    x = VectorXd::Constant(n, NaN);
    v = VectorXd::Constant(t, NaN);
  }
  static VectorXd cat(const std::vector<VariablePtr> & xs, bool d)
  {
    VectorXd r(0);
    for(auto & k : xs)
    {
      const VectorXd a = d ? VectorXd(dot(k)->value()) : VectorXd(k->value());
      VectorXd n(r.size() + a.size());
      n << r, a;
      r = n;
    }
    return r;
  }
  void updateX() { x = cat(xs, false); }
  void updateV() { v = cat(xs, true); }
};

/** value = c + A x + 1/2 x'Qx + off if x in the region, on the concatenation of the variables. When the variables are
 * Euclidean all outputs are consistent up to the errors.
 */
class GF : public graph::abstract::OutputSelector<function::abstract::Function>
{
public:
  SET_UPDATES(GF, Value, Jacobian, Velocity, Acc, JDot)

  std::vector<VariablePtr> xs;
  std::shared_ptr<Gather> g;
  VectorXd c;
  MatrixXd A;                // m x n
  std::vector<MatrixXd> Q;   // n x n for each row
  std::vector<MatrixXd> B;   // t x n: jacobian = T(A + x'Q), where T maps n to t columns (identity if Euclidean)
  MatrixXd T;                // n x t
  MatrixXd errJ;             // errors
  VectorXd errV, errA;
  double from = -1e30;       // errors only when x[0] >= from
  std::set<double> seen;     // values of x[0] at which the jacobian was asked
  int evaluations = 0;

  GF(Rng & r, int m, const std::vector<VariablePtr> & vars, double nl)
  : graph::abstract::OutputSelector<function::abstract::Function>(m), xs(vars), g(std::make_shared<Gather>(vars))
  {
    registerUpdates(Update::Value, &GF::updateValue);
    registerUpdates(Update::Jacobian, &GF::updateJacobian);
    registerUpdates(Update::Velocity, &GF::updateVelocity);
    registerUpdates(Update::Acc, &GF::updateAcc);
    registerUpdates(Update::JDot, &GF::updateJDot);
    addOutputDependency<GF>(Output::Value, Update::Value);
    addOutputDependency<GF>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<GF>(Output::Velocity, Update::Velocity);
    addOutputDependency<GF>(Output::NormalAcceleration, Update::Acc);
    addOutputDependency<GF>(Output::JDot, Update::JDot);
    addInputDependency<GF>(Update::Value, g, Gather::Output::X);
    addInputDependency<GF>(Update::Jacobian, g, Gather::Output::X);
    addInputDependency<GF>(Update::Velocity, g, Gather::Output::X);
    addInputDependency<GF>(Update::Velocity, g, Gather::Output::V);
    addInputDependency<GF>(Update::Acc, g, Gather::Output::X);
    addInputDependency<GF>(Update::Acc, g, Gather::Output::V);
    addInputDependency<GF>(Update::JDot, g, Gather::Output::X);
    addInputDependency<GF>(Update::JDot, g, Gather::Output::V);
    int n = static_cast<int>(g->x.size()), t = static_cast<int>(g->v.size());
    for(auto & x : xs)
      addVariable(x, false);
    c = r.vec(m);
    A = r.mat(m, n);
    for(int i = 0; i < m; ++i)
    {
      MatrixXd q = nl * r.mat(n, n);
      Q.push_back(q + q.transpose());
    }
    T = n == t ? MatrixXd::Identity(n, n) : r.mat(n, t);
    errJ.setZero(m, t);
    errV.setZero(m);
    errA.setZero(m);
    value_.setConstant(NaN);
    velocity_.setConstant(NaN);
    normalAcceleration_.setConstant(NaN);
    for(auto & x : xs)
    {
      jacobian_.at(x.get()) = MatrixXd::Constant(m, x->space().tSize(), NaN);
      JDot_.at(x.get()) = MatrixXd::Constant(m, x->space().tSize(), NaN);
    }
  }

  void disable(int o)
  {
    switch(o)
    {
      case 0:
        return disableOutput(Output::Value);
      case 1:
        return disableOutput(Output::Jacobian);
      case 2:
        return disableOutput(Output::Velocity);
      case 3:
        return disableOutput(Output::NormalAcceleration);
      default:
        return disableOutput(Output::JDot);
    }
  }
  bool enabled(int o) const
  {
    switch(o)
    {
      case 0:
        return isOutputEnabled(Output::Value);
      case 1:
        return isOutputEnabled(Output::Jacobian);
      case 2:
        return isOutputEnabled(Output::Velocity);
      case 3:
        return isOutputEnabled(Output::NormalAcceleration);
      default:
        return isOutputEnabled(Output::JDot);
    }
  }

  bool wrong(const VectorXd & x) const { return x[0] >= from; }
  VectorXd val(const VectorXd & x) const
  {
    VectorXd r = c + A * x;
    for(int i = 0; i < r.size(); ++i)
      r[i] += 0.5 * x.dot(Q[static_cast<size_t>(i)] * x);
    return r;
  }
  MatrixXd trueJac(const VectorXd & x) const
  {
    MatrixXd J = A;
    for(int i = 0; i < J.rows(); ++i)
      J.row(i) += (Q[static_cast<size_t>(i)] * x).transpose();
    return J * T;
  }
  MatrixXd jac(const VectorXd & x) const { return trueJac(x) + (wrong(x) ? 1. : 0.) * errJ; }
  VectorXd vel(const VectorXd & x, const VectorXd & v) const { return trueJac(x) * v + (wrong(x) ? 1. : 0.) * errV; }
  VectorXd acc(const VectorXd & x, const VectorXd & v) const
  {
    VectorXd r(size()), tv = T * v;
    for(int i = 0; i < r.size(); ++i)
      r[i] = tv.dot(Q[static_cast<size_t>(i)] * tv);
    return r + (wrong(x) ? 1. : 0.) * errA;
  }
  MatrixXd jdot(const VectorXd & v) const
  {
    MatrixXd J(size(), T.rows());
    VectorXd tv = T * v;
    for(int i = 0; i < J.rows(); ++i)
      J.row(i) = (Q[static_cast<size_t>(i)] * tv).transpose();
    return J * T;
  }

  void updateValue() { value_ = val(g->x); }
  void updateJacobian()
  {
    ++evaluations;
    seen.insert(g->x[0]);
    MatrixXd J = jac(g->x);
    int s = 0;
    for(auto & x : xs)
    {
      int k = x->space().tSize();
      jacobian_.at(x.get()) = MatrixXd(J.middleCols(s, k));
      s += k;
    }
  }
  void updateVelocity() { velocity_ = vel(g->x, g->v); }
  void updateAcc() { normalAcceleration_ = acc(g->x, g->v); }
  void updateJDot()
  {
    MatrixXd J = jdot(g->v);
    int s = 0;
    for(auto & x : xs)
    {
      int k = x->space().tSize();
      JDot_.at(x.get()) = J.middleCols(s, k);
      s += k;
    }
  }
};

/** Calls f with the elements of a. */
template<typename F>
auto spread(F && f, const std::vector<VectorXd> & a)
{
  switch(a.size())
  {
    case 1:
      return f(a[0]);
    case 2:
      return f(a[0], a[1]);
    case 3:
      return f(a[0], a[1], a[2]);
    case 4:
      return f(a[0], a[1], a[2], a[3]);
    case 5:
      return f(a[0], a[1], a[2], a[3], a[4]);
    case 6:
      return f(a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7:
      return f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    default:
      return f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  }
}

/** Calls f with v as an initializer list, if it can be. */
template<typename F>
auto asList(const VectorXd & v, F && f)
{
  using L = std::initializer_list<double>;
  switch(v.size())
  {
    case 1:
      return f(L{v[0]});
    case 2:
      return f(L{v[0], v[1]});
    case 3:
      return f(L{v[0], v[1], v[2]});
    case 4:
      return f(L{v[0], v[1], v[2], v[3]});
    default:
      return f(v);
  }
}

std::vector<VariablePtr> randomVariables(Rng & r, int maxN, bool euclidean)
{
  std::vector<VariablePtr> xs;
  int n = r.i(1, maxN);
  for(int i = 0; i < n; ++i)
  {
    if(!euclidean && r.b(0.2))
      xs.push_back(Space(r.b() ? Space::Type::SO3 : Space::Type::SE3).createVariable(vt::str("x", i)));
    else if(r.b(0.2)) // part of a variable
    {
      int k = r.i(2, 4);
      VariablePtr b = Space(k).createVariable(vt::str("b", i));
      b->value(r.vec(k));
      int t = r.i(0, k - 1);
      xs.push_back(b->subvariable(Space(r.i(1, k - t)), vt::str("x", i), Space(t)));
    }
    else
      xs.push_back(Space(r.i(1, 4)).createVariable(vt::str("x", i)));
    if(r.b(0.15))
      xs.back() = dot(xs.back());
    xs.back()->value(r.vec(xs.back()->size()));
    dot(xs.back())->value(r.vec(dot(xs.back())->size()));
  }
  return xs;
}

// ---------------------------------------------------------------------------------------------------------------- U01
enum class What
{
  Value,
  Jacobian,
  Velocity,
  Acc,
  JDot
};

void caseUpdateless(Rng & r)
{
  auto xs = randomVariables(r, 4, false);
  int m = r.i(1, 3);
  auto f = std::make_shared<GF>(r, m, xs, 1.);
  op("f", m, xs.size());
  using O = GF::Output;
  if(r.b(0.15))
  {
    f->disable(r.pick(std::vector<int>{0, 3, 4}));
    op("disabled");
  }
  std::vector<VectorXd> keptV; // the derivatives have to be kept by the object tested
  UpdatelessFunction uf(f);
  VT_CHECK(uf.function() == f, "U01-function", "");
  VT_CHECK(uf.variables().numberOfVariables() == static_cast<int>(xs.size()), "U01-variables", "");

  // The user may also have its own graph on the same function.
  graph::CallGraph user;
  auto in = std::make_shared<graph::internal::Inputs>();
  in->addInput(f, O::Velocity);
  bool ownGraph = r.b(0.3);
  if(ownGraph)
  {
    user.add(in);
    user.update();
  }

  const size_t n = xs.size();
  std::vector<VectorXd> X, V; // expected values of the variables
  for(auto & x : xs)
  {
    X.push_back(x->value());
    V.push_back(dot(x)->value());
  }
  auto resync = [&] {
    for(size_t i = 0; i < n; ++i)
    {
      X[i] = xs[i]->value();
      V[i] = dot(xs[i])->value();
    }
  };
  auto cat = [](const std::vector<VectorXd> & a) {
    VectorXd v(0);
    for(auto & k : a)
    {
      VectorXd w(v.size() + k.size());
      w << v, k;
      v = w;
    }
    return v;
  };
  auto check = [&](What w, size_t jx, const MatrixXd & got, const char * form) {
    for(size_t i = 0; i < n; ++i)
    {
      VT_CHECK(same(xs[i]->value(), X[i]), "U01-value-set", form, " variable ", i);
      if(w != What::Value && w != What::Jacobian)
        VT_CHECK(same(dot(xs[i])->value(), V[i]), "U01-velocity-set", form, " variable ", i);
    }
    VectorXd x = cat(X), v = cat(V);
    MatrixXd e;
    int s = 0;
    for(size_t i = 0; i < jx; ++i)
      s += xs[i]->space().tSize();
    int k = xs[jx]->space().tSize();
    switch(w)
    {
      case What::Value:
        e = f->val(x);
        break;
      case What::Jacobian:
        e = f->jac(x).middleCols(s, k);
        break;
      case What::Velocity:
        e = f->vel(x, v);
        break;
      case What::Acc:
        e = f->acc(x, v);
        break;
      default:
        e = f->jdot(v).middleCols(s, k);
    }
    VT_CHECK(got.rows() == e.rows() && got.cols() == e.cols() && close(got, e), "U01-output", form, " output ",
             static_cast<int>(w), " got ", show(got), " expected ", show(e));
    count("outputs_compared");
  };
  auto enabled = [&](What w) { return f->enabled(static_cast<int>(w)); };
  // Returns false if it threw.
  auto call = [&](What w, size_t jx, MatrixXd & out, auto &&... a) {
    std::string msg = "?";
    try
    {
      switch(w)
      {
        case What::Value:
          out = uf.value(a...);
          break;
        case What::Jacobian:
          out = uf.jacobian(*xs[jx], a...);
          break;
        default:
          break;
      }
      return true;
    }
    catch(std::runtime_error & e)
    {
      msg = e.what();
    }
    VT_CHECK(!msg.empty(), "U01-message", "refused without saying why");
    return false;
  };
  auto call2 = [&](What w, size_t jx, MatrixXd & out, auto &&... a) {
    std::string msg = "?";
    try
    {
      switch(w)
      {
        case What::Velocity:
          out = uf.velocity(a...);
          break;
        case What::Acc:
          out = uf.normalAcceleration(a...);
          break;
        case What::JDot:
          out = uf.JDot(*xs[jx], a...);
          break;
        default:
          break;
      }
      return true;
    }
    catch(std::runtime_error & e)
    {
      msg = e.what();
    }
    VT_CHECK(!msg.empty(), "U01-message", "refused without saying why");
    return false;
  };

  int steps = r.i(2, 8);
  for(int it = 0; it < steps; ++it)
  {
    What w = static_cast<What>(r.i(0, 4));
    bool second = w == What::Velocity || w == What::Acc || w == What::JDot;
    size_t jx = static_cast<size_t>(r.i(0, static_cast<int>(n) - 1));
    MatrixXd out;
    std::vector<VectorXd> nX, nV;
    for(size_t i = 0; i < n; ++i)
    {
      nX.push_back(r.vec(static_cast<int>(X[i].size())));
      nV.push_back(r.vec(static_cast<int>(V[i].size())));
    }
    auto setAll = [&] {
      X = nX;
      if(second)
        V = nV;
    };
    int form = r.i(0, 6);
    bool ok = true;
    const char * name = "";
    bool expected = enabled(w);
    if(form == 0) // concatenation
    {
      name = "concatenation";
      if(second)
        ok = call2(w, jx, out, cat(nX), cat(nV));
      else
        ok = call(w, jx, out, cat(nX));
      if(expected)
        setAll();
    }
    else if(form == 1) // one by one
    {
      name = "one by one";
      std::vector<VectorXd> a;
      for(size_t i = 0; i < n; ++i)
      {
        a.push_back(nX[i]);
        if(second)
          a.push_back(nV[i]);
      }
      if(second)
      {
        switch(n)
        {
          case 1:
            ok = call2(w, jx, out, a[0], a[1]);
            break;
          case 2:
            ok = asList(a[0], [&](auto l) { return call2(w, jx, out, l, a[1], a[2], a[3]); });
            break;
          case 3:
            ok = asList(a[5], [&](auto l) { return call2(w, jx, out, a[0], a[1], a[2], a[3], a[4], l); });
            break;
          default:
            ok = call2(w, jx, out, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        }
      }
      else
      {
        switch(n)
        {
          case 1:
            ok = asList(a[0], [&](auto l) { return call(w, jx, out, l); });
            break;
          case 2:
            ok = asList(a[1], [&](auto l) { return call(w, jx, out, a[0], l); });
            break;
          case 3:
            ok = asList(a[1], [&](auto l) { return call(w, jx, out, a[0], l, a[2]); });
            break;
          default:
            ok = asList(a[0], [&](auto l) { return call(w, jx, out, l, a[1], a[2], a[3]); });
        }
      }
      if(expected)
        setAll();
    }
    else if(form <= 3) // by variables, not all and possibly several times
    {
      name = "by variable";
      int k = r.i(1, 3);
      std::vector<size_t> id;
      for(int i = 0; i < k; ++i)
        id.push_back(static_cast<size_t>(r.i(0, static_cast<int>(n) - 1)));
      std::vector<VectorXd> a, b;
      for(size_t i : id)
      {
        a.push_back(r.vec(static_cast<int>(X[i].size())));
        b.push_back(r.vec(static_cast<int>(V[i].size())));
        if(expected)
        {
          X[i] = a.back();
          if(second)
            V[i] = b.back();
        }
      }
      auto v = [&](int i) -> Variable & { return *xs[id[static_cast<size_t>(i)]]; };
      if(second)
      {
        if(k == 1)
          ok = asList(a[0], [&](auto l) { return asList(b[0], [&](auto q) { return call2(w, jx, out, v(0), l, q); }); });
        else if(k == 2)
          ok = asList(b[0], [&](auto q) { return call2(w, jx, out, v(0), a[0], q, v(1), a[1], b[1]); });
        else
          ok = asList(a[2], [&](auto l) { return call2(w, jx, out, v(0), a[0], b[0], v(1), a[1], b[1], v(2), l, b[2]); });
      }
      else
      {
        if(k == 1)
          ok = asList(a[0], [&](auto l) { return call(w, jx, out, v(0), l); });
        else if(k == 2)
          ok = asList(a[0], [&](auto l) { return call(w, jx, out, v(0), l, v(1), a[1]); });
        else
          ok = asList(a[1], [&](auto l) { return call(w, jx, out, v(0), a[0], v(1), l, v(2), a[2]); });
      }
    }
    else if(form == 4) // values changed by the user, outputs asked for one variable
    {
      name = "after changes by the user";
      for(size_t i = 0; i < n; ++i)
      {
        if(r.b())
        {
          X[i] = nX[i];
          xs[i]->value(nX[i]);
        }
        if(r.b())
        {
          V[i] = nV[i];
          dot(xs[i])->value(nV[i]);
        }
      }
      if(ownGraph)
      {
        user.execute();
        VT_CHECK(close(f->velocity(), f->vel(cat(X), cat(V))), "U01-user-graph", "");
      }
      size_t i = jx;
      if(expected)
      {
        X[i] = nX[i];
        if(second)
          V[i] = nV[i];
      }
      if(second)
        ok = call2(w, jx, out, *xs[i], nX[i], nV[i]);
      else
        ok = call(w, jx, out, *xs[i], nX[i]);
    }
    else // wrong
    {
      expected = false;
      int c = r.i(0, 3);
      name = "wrong";
      if(c == 0) // wrong total size
      {
        VectorXd x = cat(nX), v = cat(nV);
        bool inX = !second || r.b();
        VectorXd & z = inX ? x : v;
        z = r.vec(static_cast<int>(z.size()) + (r.b() ? 1 : -1));
        ok = second ? call2(w, jx, out, x, v) : call(w, jx, out, x);
      }
      else if(c == 1) // wrong number
      {
        size_t k = n == 1 || r.b() ? n + 1 : n - 1;
        if(k == 1)
          k = n + 1; // not a concatenation
        std::vector<VectorXd> a(nX), b(nV);
        a.resize(k, r.vec(2));
        b.resize(k, r.vec(2));
        if(second)
        {
          std::vector<VectorXd> z;
          for(size_t i = 0; i < std::min<size_t>(k, 4); ++i)
          {
            z.push_back(a[i]);
            z.push_back(b[i]);
          }
          if(k == 5)
            ok = call2(w, jx, out, z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7], a[4], b[4]);
          else
            switch(k)
            {
              case 2:
                ok = call2(w, jx, out, z[0], z[1], z[2], z[3]);
                break;
              case 3:
                ok = call2(w, jx, out, z[0], z[1], z[2], z[3], z[4], z[5]);
                break;
              default:
                ok = call2(w, jx, out, z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7]);
            }
        }
        else
          ok = spread([&](auto &&... z) { return call(w, jx, out, z...); }, a);
      }
      else if(c == 2) // wrong size for a variable
      {
        size_t i = jx;
        VectorXd a = nX[i], b = nV[i];
        VectorXd & z = !second || r.b() ? a : b;
        z = r.vec(static_cast<int>(z.size()) + (r.b() || z.size() == 1 ? 1 : -1));
        ok = second ? call2(w, jx, out, *xs[i], a, b) : call(w, jx, out, *xs[i], a);
      }
      else // variable of somebody else
      {
        VariablePtr o = Space(2).createVariable("other");
        VectorXd z = r.vec(2);
        o->value(z);
        ok = second ? call2(w, jx, out, *o, r.vec(2), r.vec(2)) : call(w, jx, out, *o, r.vec(2));
        VT_CHECK(same(o->value(), z), "U01-other-variable", "");
      }
      count("invalid_calls");
    }
    op(name, static_cast<int>(w), " ", ok);
    VT_CHECK(ok == expected, expected ? "U01-refused" : "U01-accepted", name, " output ", static_cast<int>(w));
    if(ok)
      check(w, jx, out, name);
    else
      resync();
    mix(static_cast<uint64_t>(form * 8 + static_cast<int>(w)));
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- U02
struct Quiet
{
  std::stringstream s;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

void caseCheck(Rng & r)
{
  // Errors of the finite differences are below 1e-6 relatively to the scale of the function, the errors planted are
  // above 1e-2.
  int which = r.i(0, 3); // jacobian, velocity, normal acceleration, all
  bool manifold = r.b(0.15);
  auto xs = randomVariables(r, 4, !manifold);
  bool euclidean = true;
  int n = 0, t = 0;
  for(auto & x : xs)
  {
    euclidean = euclidean && x->isEuclidean();
    n += x->size();
    t += x->space().tSize();
  }
  int m = r.i(3, 5);
  double nl = r.b(0.3) ? 0 : 1;
  auto f = std::make_shared<GF>(r, m, xs, nl);
  for(int i = 0; i < std::min(m, n); ++i)
    f->A(i, i) += 6 + n; // well conditioned
  op("f", m, xs.size(), " n", n, nl ? " quadratic" : " linear");

  CheckOptions o(1e-7, 1e-4, r.b(0.3));
  bool explicitSamples = r.b();
  if(explicitSamples)
    o.samples = static_cast<size_t>(r.i(1, 3));
  bool bigAcc = false;
  std::vector<VectorXd> at; // values of the configurations
  bool configs = r.b(0.4);
  if(configs)
  {
    int k = r.i(1, 2);
    for(int i = 0; i < k; ++i)
    {
      CheckOptions::CheckConfiguration c;
      VectorXd x = r.vec(n);
      x[0] += 5;
      c.value = x;
      at.push_back(x);
      if(r.b())
        c.velocity = r.vec(t);
      if(which >= 2 && m >= t && r.b())
      {
        double s = r.b() ? 1 : 1e4;
        bigAcc = bigAcc || s > 1;
        VectorXd a = r.vec(t);
        a[0] += 3;
        c.acceleration = VectorXd(s * a);
      }
      c.samples = static_cast<size_t>(r.i(1, 2));
      o.configs.push_back(c);
    }
  }
  bool random = explicitSamples || !configs; // configurations in [-1, 1] are tested

  // Plant an error.
  int err = -1;
  bool region = false; // only the configurations given see the error
  if(r.b(0.6))
  {
    err = which == 3 ? r.i(0, 2) : which;
    double e = (r.b() ? 1 : -1) * r.d(0.3, 3);
    int i = r.i(0, m - 1), j = r.i(0, t - 1);
    if(err == 0)
      f->errJ(i, j) = e;
    else if(err == 1)
      f->errV[i] = e;
    else
    {
      f->errA[i] = e;
      if(bigAcc)
        f->errA[i] *= 1e6;
    }
    if(r.b(0.3))
    {
      region = true;
      f->from = 3;
    }
    op("error ", err, " (", i, ",", j, ") ", e, region ? " region" : "");
  }
  bool wrong = err >= 0 && (!region || configs);
  bool mustThrow = !euclidean && which != 1;
  if(r.b(0.1))
  {
    std::vector<int> need{1};
    if(which == 0 || which == 3)
      need.push_back(0);
    if(which >= 1)
      need.push_back(2);
    if(which >= 2)
      need.push_back(3);
    f->disable(r.pick(need));
    mustThrow = true;
    op("missing output");
  }

  bool res = false, threw = false;
  std::string printed;
  {
    Quiet q;
    try
    {
      switch(which)
      {
        case 0:
          res = checkJacobian(f, o);
          break;
        case 1:
          res = checkVelocity(f, o);
          break;
        case 2:
          res = checkNormalAcceleration(f, o);
          break;
        default:
          res = checkFunction(f, o);
      }
    }
    catch(std::runtime_error &)
    {
      threw = true;
    }
    printed = q.s.str();
  }
  VT_CHECK(threw == mustThrow, "U02-exception", threw ? "unexpected" : "missing", " check ", which);
  if(!threw)
  {
    VT_CHECK(!res || !wrong, "U02-accepted", "check ", which, " error ", err, region ? " in a region" : "");
    VT_CHECK(res || wrong, "U02-rejected", "check ", which, nl ? " quadratic" : " linear", bigAcc ? " large acceleration" : "",
             " function of ", n, " in ", m);
    if(!o.verbose)
      VT_CHECK(printed.empty(), "U02-not-quiet", printed.substr(0, 80));
    else
      VT_CHECK(res || !printed.empty(), "U02-says-nothing", "");
    if(which != 1 || res)
    {
      for(const auto & x : at)
        VT_CHECK(f->seen.count(x[0]), "U02-configuration-skipped", "check ", which);
      size_t inner = 0;
      for(double s : f->seen)
        inner += s <= 1.5;
      if(random && res)
        VT_CHECK(inner >= std::max<size_t>(1, o.samples), "U02-samples", inner, " instead of ", o.samples);
      if(!random)
        VT_CHECK(inner == 0, "U02-more-samples", inner);
    }
    count(res ? "accepted" : "rejected");
    if(err >= 0)
      count(err == 0 ? "jacobian_errors" : err == 1 ? "velocity_errors" : "acceleration_errors");
    nontrivial();
  }
  else
    count("refused");
  mix(static_cast<uint64_t>(which * 16 + err));
}

#if FOCUS == 3
// ---------------------------------------------------------------------------------------------------------------- D01
using diagnostic::GraphProbe;
using graph::internal::Log;
using graph::internal::Logger;

struct T1
{
  TaskWithRequirementsPtr tr;
  FunctionPtr f;
  std::vector<VariablePtr> vars;
  constraint::Type type;
  int kind; // 0 none, 1 P, 2 PD, 3 constant, 4 damper
};

void caseProbe(Rng & r)
{
  Log & log = const_cast<Log &>(Logger::logger().log());
  log = Log(); // addresses may have been used in former cases
  Logger::logger().enable();
  Pool P(r, r.i(1, 3));
  P.randomize(2);
  LinearizedControlProblem pb;
  std::vector<T1> ts;
  auto add = [&] {
    T1 t;
    std::vector<PV> pv;
    std::set<int> bases;
    for(int i = r.i(1, 2); i > 0; --i)
    {
      auto v = P.whole(r.i(0, static_cast<int>(P.base.size()) - 1));
      if(bases.insert(v.p.base).second)
        pv.push_back(v);
    }
    int m = r.i(1, 3);
    bool deriv = r.b(0.2);
    int kf = r.i(0, 2);
    deriv = deriv && kf != 0;
    if(deriv)
      for(auto & v : pv)
        v = {dot(v.v), {v.p.base, 1, 0, v.p.n}};
    if(kf == 1)
      pv.resize(1);
    for(auto & v : pv)
      t.vars.push_back(v.v);
    if(kf == 0)
      t.f = std::make_shared<QF>(r, m, pv, false);
    else if(kf == 1)
    {
      t.f = std::make_shared<function::IdentityFunction>(pv[0].v);
      m = pv[0].p.n;
    }
    else
    {
      std::vector<MatrixXd> A;
      std::vector<MatrixConstRef> Ar;
      for(auto & v : pv)
        A.push_back(r.mat(m, v.p.n));
      for(auto & a : A)
        Ar.push_back(a);
      t.f = std::make_shared<function::BasicLinearFunction>(Ar, t.vars, r.vec(m));
    }
    int k = r.i(0, 3);
    bool twice = r.b(0.3); // acceleration
    t.kind = kf == 0 ? (twice ? 2 : 1) : deriv ? r.i(0, 1) : twice ? 2 : r.b() ? 1 : r.b() ? 3 : 0;
    if(k == 2 && t.kind == 1 && r.b())
      t.kind = 4;
    VectorXd l = -r.vec(m, 1, 2), u = r.vec(m, 1, 2);
    auto with = [&](auto && proto) {
      switch(t.kind)
      {
        case 0:
          t.tr = pb.add(Task(proto, task_dynamics::None()));
          break;
        case 1:
          t.tr = pb.add(Task(proto, task_dynamics::P(r.d(0.5, 2))));
          break;
        case 2:
          t.tr = pb.add(Task(proto, task_dynamics::PD(r.d(0.5, 2), r.d(0.5, 2))));
          break;
        case 3:
          t.tr = pb.add(Task(proto, task_dynamics::Constant()));
          break;
        default:
          t.tr = pb.add(Task(proto, task_dynamics::VelocityDamper(0.1, {1., 0.01, 0., 0.1})));
      }
    };
    switch(k)
    {
      case 0:
        t.type = constraint::Type::EQUAL;
        if(t.kind == 4)
          t.kind = 1;
        with(t.f == u);
        break;
      case 1:
        t.type = constraint::Type::GREATER_THAN;
        with(t.f >= l);
        break;
      case 2:
        t.type = constraint::Type::LOWER_THAN;
        with(t.f <= u);
        break;
      default:
        t.type = constraint::Type::DOUBLE_SIDED;
        with(l <= t.f <= u);
    }
    op("task ", kf, " ", t.kind, " ", k);
    ts.push_back(t);
  };
  for(int i = r.i(1, 4); i > 0; --i)
    add();
  GraphProbe gp;
  gp.registerTVMFunction<QF>();
  auto id = [](auto * p) { return reinterpret_cast<std::uintptr_t>(p); };

  for(int it = r.i(1, 4); it > 0; --it)
  {
    P.randomize(2);
    pb.update();
    std::map<std::pair<std::uintptr_t, std::string>, std::map<const Variable *, MatrixXd>> got;
    for(auto & v : gp.listOutputVal(&pb.updateGraph(), true))
    {
      auto & o = std::get<Log::Output>(v);
      auto & here = got[std::make_pair(o.owner.value, o.name)];
      VT_CHECK(here.emplace(std::get<VariablePtr>(v).get(), std::get<MatrixXd>(v)).second, "D01-value-twice", o.name);
    }
    size_t known = 0, matched = 0;
    for(auto & g : got)
      known += g.second.size();
    auto expect = [&](std::uintptr_t p, const std::string & name, const Variable * x, const MatrixXd & e, const char * what, bool must) {
      auto i = got.find({p, name});
      if(i == got.end())
      {
        VT_CHECK(!must, "D01-value-missing", what, " ", name);
        return;
      }
      VT_CHECK(i->second.count(x), "D01-value-missing", what, " ", name, " variable");
      VT_CHECK(close(i->second[x], e), "D01-value", what, " ", name, " ", show(i->second[x]), " instead of ", show(e));
      ++matched;
      count("values_compared");
    };
    using CT = constraint::Type;
    for(auto & t : ts)
    {
      auto c = pb.constraint(*t.tr);
      auto pc = id(c.get());
      for(auto & x : c->variables())
        expect(pc, "Jacobian", x.get(), c->jacobian(*x), "constraint", true);
      if(t.type == CT::EQUAL)
        expect(pc, "E", nullptr, c->e(), "constraint", true);
      if(t.type == CT::GREATER_THAN || t.type == CT::DOUBLE_SIDED)
        expect(pc, "L", nullptr, c->l(), "constraint", true);
      if(t.type == CT::LOWER_THAN || t.type == CT::DOUBLE_SIDED)
        expect(pc, "U", nullptr, c->u(), "constraint", true);
      auto pf = id(t.f.get());
      expect(pf, "Value", nullptr, t.f->value(), "function", t.kind >= 1 && t.kind <= 2);
      for(auto & x : t.vars)
        expect(pf, "Jacobian", x.get(), t.f->jacobian(*x), "function", true);
      expect(pf, "Velocity", nullptr, t.f->velocity(), "function", t.kind == 2);
      expect(pf, "NormalAcceleration", nullptr, t.f->normalAcceleration(), "function", t.kind == 2);
      if(auto lf = std::dynamic_pointer_cast<function::abstract::LinearFunction>(t.f))
        expect(pf, "B", nullptr, lf->b(), "function", false);
      auto td = t.tr->task.taskDynamics().get();
      if(td)
        expect(id(td), "Value", nullptr, td->value(), "task dynamics", true);
      if(auto td2 = t.tr->task.secondBoundTaskDynamics().get())
        expect(id(td2), "Value", nullptr, td2->value(), "task dynamics", true);
    }
    VT_CHECK(matched == known, "D01-value-unexpected", known, " values for ", matched, " expected");
    // what is edited is taken into account
    if(r.b(0.6))
    {
      if(ts.size() > 1 && r.b())
      {
        size_t k = static_cast<size_t>(r.i(0, static_cast<int>(ts.size()) - 1));
        op("remove ", k);
        pb.remove(*ts[k].tr);
        ts.erase(ts.begin() + static_cast<long>(k));
        count("tasks_removed");
      }
      else
        add();
    }
  }
  nontrivial();
}
#endif
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
    std::srand(static_cast<unsigned>(r.next()));
#if FOCUS == 1
    caseUpdateless(r);
#elif FOCUS == 3
    caseProbe(r);
#else
    caseCheck(r);
#endif
  });
}

// Functions and linear constraints.
//  -DFOCUS=1 F01 outputs of functions;  2 F02 linear constraints;  3 P02 truthful properties;  4 A01 affine expressions
#include "mp.h"
#include "pool.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/function/abstract/LinearFunction.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/graph.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using function::BasicLinearFunction;
using function::IdentityFunction;
using constraint::BasicLinearConstraint;
using mp::MP;

namespace
{
void truthful(const MP & p, const MatrixXd & A, const std::string & w)
{
#if FOCUS == 3
  if(A.cols() > 1 || A.rows() == 1)
    mp::checkSound(p, A, w, "P02");
  else
    VT_CHECK(!p.isZero() || A.isZero(0), "P02-zero", w, show(A));
  count("properties_checked");
  if(p.shape() != MP::GENERAL)
    count("shapes_claimed");
  if(p.isConstant())
    count("constants_claimed");
#else
  (void)p;
  (void)A;
  (void)w;
#endif
}

/** Model of sum A_k x_k: for each variable of the object, the accumulated matrix. */
struct LinModel
{
  int m;
  std::vector<PV> vars;
  std::vector<MatrixXd> J;

  /** 0: ok, 1: must be refused */
  bool add(const MatrixXd & A, const PV & x)
  {
    for(size_t i = 0; i < vars.size(); ++i)
      if(vars[i].p.contains(x.p))
      {
        J[i].middleCols(x.p.t - vars[i].p.t, x.p.n) += A;
        return true;
      }
    for(auto & v : vars)
      if(v.p.intersects(x.p))
        return false;
    vars.push_back(x);
    J.push_back(A);
    return true;
  }
  VectorXd at(int extraOrder) const
  {
    VectorXd r = VectorXd::Zero(m);
    for(size_t i = 0; i < vars.size(); ++i)
      r += J[i] * (extraOrder ? dot(vars[i].v, extraOrder) : vars[i].v)->value();
    return r;
  }
};

template<typename F>
void checkJacobians(const F & f, const LinModel & M, Pool & P, Rng & r, const std::string & id)
{
  const auto & vars = f.variables();
  VT_CHECK(vars.numberOfVariables() == static_cast<int>(M.vars.size()), id + "-variables", vars.numberOfVariables(), " vs ",
           M.vars.size());
  for(size_t i = 0; i < M.vars.size(); ++i)
  {
    const auto & x = M.vars[i];
    VT_CHECK(*vars[static_cast<int>(i)] == *x.v, id + "-variable-order", x.str());
    auto J = f.jacobian(*x.v);
    VT_CHECK(same(J, M.J[i]), id + "-jacobian", x.str(), " got ", show(J), " want ", show(M.J[i]));
    VT_CHECK(f.linearIn(*x.v), id + "-linear", x.str());
    truthful(J.properties(), J, "jacobian " + x.str());
    // any part of the variable, through a handle the object never saw
    auto s = P.subOf(x);
    auto Js = f.jacobian(*s.v);
    MatrixXd want = M.J[i].middleCols(s.p.t - x.p.t, s.p.n);
    VT_CHECK(same(Js, want), id + "-jacobian-part", s.str(), " of ", x.str(), " got ", show(Js), " want ", show(want));
    VT_CHECK(f.linearIn(*s.v), id + "-linear-part", s.str());
    truthful(Js.properties(), Js, "jacobian part " + s.str());
    count("jacobian_parts");
  }
  // something that is not (part of) a variable of the object
  auto o = P.any(2, 0.5);
  bool in = false;
  for(auto & x : M.vars)
    in = in || x.p.contains(o.p);
  if(!in)
  {
    VT_CHECK(throws([&] { f.jacobian(*o.v); }), id + "-jacobian-absent", o.str());
    VT_CHECK(throws([&] { f.linearIn(*o.v); }), id + "-linear-absent", o.str());
  }
  (void)r;
}

std::vector<MatrixConstRef> refs(const std::vector<MatrixXd> & A)
{
  std::vector<MatrixConstRef> v;
  for(auto & a : A)
    v.emplace_back(a);
  return v;
}

/** Random list of matrices/variables; if \p ok, the list is such that it must be accepted. */
void randomTerms(Rng & r, Pool & P, int m, int maxOrder, std::vector<MatrixXd> & A, std::vector<PV> & x)
{
  int n = r.i(1, 4);
  for(int k = 0; k < n; ++k)
  {
    PV v;
    if(k && r.b(0.35))
      v = r.b() ? x[static_cast<size_t>(r.i(0, k - 1))] : P.subOf(x[static_cast<size_t>(r.i(0, k - 1))]);
    else
      v = P.any(maxOrder, 0.4);
    x.push_back(v);
    A.push_back(r.dmat(m, v.p.n));
  }
}

// --------------------------------------------------------------------------------------------------- linear functions
struct LinF
{
  std::shared_ptr<BasicLinearFunction> f;
  LinModel M;
  VectorXd b;
};

void checkLinF(LinF & L, Pool & P, Rng & r, bool useGraph, graph::CallGraph * g)
{
  auto & f = *L.f;
  checkJacobians(f, L.M, P, r, "F01");
  if(useGraph)
    g->execute();
  else
  {
    f.updateValue();
    f.updateVelocity();
  }
  VectorXd v = L.M.at(0) + L.b, dv = L.M.at(1);
  VT_CHECK(f.size() == L.M.m && f.tSize() == L.M.m && f.rSize() == L.M.m, "F01-size", f.size());
  VT_CHECK(close(f.value(), v), "F01-value", "got ", show(f.value()), " want ", show(v));
  VT_CHECK(close(f.velocity(), dv), "F01-velocity", "got ", show(f.velocity()), " want ", show(dv));
  VT_CHECK(f.normalAcceleration().size() == L.M.m && f.normalAcceleration().isZero(0), "F01-normal-acceleration",
           show(f.normalAcceleration()));
  VT_CHECK(same(f.b(), L.b), "F01-b", show(f.b()), " want ", show(L.b));
  truthful(f.b().properties(), f.b(), "b");
  for(size_t i = 0; i < L.M.vars.size(); ++i)
  {
    auto & x = L.M.vars[i];
    auto JD = f.JDot(*x.v);
    VT_CHECK(JD.rows() == L.M.m && JD.cols() == x.p.n && MatrixXd(JD).isZero(0), "F01-jdot", show(JD));
    auto s = P.subOf(x);
    auto JDs = f.JDot(*s.v);
    VT_CHECK(JDs.rows() == L.M.m && JDs.cols() == s.p.n && MatrixXd(JDs).isZero(0), "F01-jdot-part", show(JDs));
  }
}

bool makeLinF(Rng & r, Pool & P, LinF & L)
{
  int m = r.i(1, 4);
  L.M.m = m;
  int kind = r.i(0, 4);
  std::vector<MatrixXd> A;
  std::vector<PV> x;
  if(kind <= 1) // list, with or without b
  {
    randomTerms(r, P, m, 1, A, x);
    bool ok = true;
    for(size_t k = 0; k < x.size() && ok; ++k)
      ok = L.M.add(A[k], x[k]);
    // sometimes an incoherent description
    int flaw = r.i(0, 11);
    std::vector<VariablePtr> vars;
    for(auto & v : x)
      vars.push_back(v.v);
    L.b = r.dvec(m);
    VectorXd b = L.b;
    if(flaw == 0)
      A.back() = r.dmat(m + 1, x.back().p.n), ok = ok && A.size() == 1 && kind == 0;
    if(flaw == 1)
      A.back() = r.dmat(m, x.back().p.n + 1), ok = false;
    if(flaw == 2)
      A.push_back(r.dmat(m, 1)), ok = false;
    if(flaw == 3 && kind == 1)
      b = r.dvec(m + 1), ok = false;
    if(flaw == 0 && ok) // a single matrix defines the size
    {
      L.M.m = m + 1;
      L.M.J[0] = A[0];
    }
    std::string w = vt::str("list", kind, " m", m, " flaw", flaw);
    for(auto & v : x)
      w += " " + v.str();
    op(w);
    bool th = throws([&] {
      if(kind == 0)
        L.f = x.size() == 1 && A.size() == 1 && r.b() ? std::make_shared<BasicLinearFunction>(A[0], vars[0])
                                     : std::make_shared<BasicLinearFunction>(refs(A), vars);
      else
        L.f = x.size() == 1 && A.size() == 1 && r.b() ? std::make_shared<BasicLinearFunction>(A[0], vars[0], b)
                                     : std::make_shared<BasicLinearFunction>(refs(A), vars, b);
    });
    VT_CHECK(th == !ok, "F01-construction-check", w, " threw ", th);
    if(!ok)
    {
      count("refused_constructions");
      return false;
    }
    if(kind == 0)
      L.b = VectorXd::Zero(L.M.m);
    return true;
  }
  if(kind == 2) // size only, then setters
  {
    int n = r.i(1, 3);
    std::vector<VariablePtr> vars;
    for(int k = 0; k < n; ++k)
    {
      auto v = P.any(1, 0.4);
      bool ok = true;
      for(auto & y : L.M.vars)
        ok = ok && !y.p.intersects(v.p);
      if(!ok)
        continue;
      L.M.add(r.dmat(m, v.p.n), v);
      vars.push_back(v.v);
    }
    op("sized ", m, " ", vars.size());
    L.f = vars.size() == 1 && r.b() ? std::make_shared<BasicLinearFunction>(m, vars[0])
                                    : std::make_shared<BasicLinearFunction>(m, vars);
    for(size_t k = 0; k < L.M.vars.size(); ++k)
      L.f->A(L.M.J[k], *L.M.vars[k].v);
    L.b = r.dvec(m);
    L.f->b(L.b);
    return true;
  }
  if(kind == 3)
  {
    auto v = P.any(1, 0.5);
    op("identity ", v.str());
    L.f = std::make_shared<IdentityFunction>(v.v);
    L.M.m = v.p.n;
    L.M.add(MatrixXd::Identity(v.p.n, v.p.n), v);
    L.b = VectorXd::Zero(v.p.n);
    VT_CHECK(L.f->jacobian(*v.v).properties().isIdentity(), "F01-identity", v.str());
    auto & f = *L.f;
    VT_CHECK(throws([&] { f.A(r.dmat(v.p.n, v.p.n)); }) && throws([&] { f.A(r.dmat(v.p.n, v.p.n), *v.v); })
                 && throws([&] { f.b(r.dvec(v.p.n)); }),
             "F01-identity-fixed", v.str());
    return true;
  }
  {
    auto v = P.any(1, 0.5);
    MatrixXd B = r.dmat(m, v.p.n);
    op("lin ", v.str());
    L.f = std::make_shared<BasicLinearFunction>(B * v.v);
    L.M.add(B, v);
    L.b = VectorXd::Zero(m);
    return true;
  }
}

void caseLinF(Rng & r)
{
  Pool P(r, r.i(1, 3));
  LinF L;
  if(!makeLinF(r, P, L))
    return;
  auto g = utils::generateUpdateGraph(std::static_pointer_cast<function::abstract::LinearFunction>(L.f),
                                      function::abstract::LinearFunction::Output::Value,
                                      function::abstract::LinearFunction::Output::Velocity);
  bool isId = dynamic_cast<IdentityFunction *>(L.f.get()) != nullptr;
  int n = r.i(2, 6);
  for(int k = 0; k < n; ++k)
  {
    checkLinF(L, P, r, r.b(), g.get());
    P.randomize(2);
    if(!isId && r.b(0.5))
    {
      size_t i = static_cast<size_t>(r.i(0, static_cast<int>(L.M.vars.size()) - 1));
      MatrixXd A = r.dmat(L.M.m, L.M.vars[i].p.n);
      op("A ", i);
      if(r.b(0.2))
      {
        MatrixXd B = r.b() ? r.dmat(L.M.m + 1, A.cols()) : r.dmat(L.M.m, A.cols() + 1);
        VT_CHECK(throws([&] { L.f->A(B, *L.M.vars[i].v); }), "F01-A-size", show(B));
      }
      else if(L.M.vars.size() == 1 && r.b())
      {
        L.f->A(A);
        L.M.J[0] = A;
      }
      else
      {
        L.f->A(A, *L.M.vars[i].v);
        L.M.J[i] = A;
        if(L.M.vars.size() > 1)
          VT_CHECK(throws([&] { L.f->A(A); }), "F01-A-shortcut", L.M.vars.size());
      }
    }
    if(!isId && r.b(0.5))
    {
      op("b");
      if(r.b(0.2))
        VT_CHECK(throws([&] { L.f->b(r.dvec(L.M.m + 1)); }), "F01-b-size", L.M.m);
      else
      {
        L.b = r.dvec(L.M.m);
        L.f->b(L.b);
      }
    }
  }
  checkLinF(L, P, r, true, g.get());
  nontrivial();
}

// ------------------------------------------------------------------------------- user-defined function, any history
struct UserF : function::abstract::Function
{
  UserF(int m) : Function(m) {}
  UserF(Space s) : Function(s) {}
  using Function::addVariable;
  using Function::removeVariable;
  using Function::splitJacobian;
  void rs(int m) { resize(m); }
  MatrixXd & J(const Variable & v) { return jacobian_.at(&v); }
  MatrixXd & JD(const Variable & v) { return JDot_.at(&v); }
};

/** A linear function whose matrices and vector are computed by its own updates. */
class DynamicLinear : public graph::abstract::OutputSelector<function::abstract::LinearFunction>
{
public:
  SET_UPDATES(DynamicLinear, Mat, Vec)
  std::vector<PV> x;
  std::vector<MatrixXd> A; // next values
  VectorXd c;
  DynamicLinear(int m, const std::vector<PV> & vars)
  : graph::abstract::OutputSelector<function::abstract::LinearFunction>(m), x(vars)
  {
    registerUpdates(Update::Mat, &DynamicLinear::mat, Update::Vec, &DynamicLinear::vec);
    addOutputDependency<DynamicLinear>(Output::Jacobian, Update::Mat);
    addOutputDependency<DynamicLinear>(Output::B, Update::Vec);
    for(auto & v : x)
      addVariable(v.v, true);
    setDerivativesToZero();
    for(auto & v : x)
      jacobian_.at(v.v.get()) = MatrixXd::Constant(m, v.p.n, std::nan(""));
    b_ = VectorXd::Constant(m, std::nan(""));
  }
  void next(Rng & r)
  {
    A.clear();
    for(auto & v : x)
      A.push_back(r.dmat(size(), v.p.n));
    c = r.dvec(size());
  }
  void mat()
  {
    for(size_t k = 0; k < x.size(); ++k)
      jacobian_.at(x[k].v.get()) = A[k];
  }
  void vec() { b_ = c; }
};

void caseDynamic(Rng & r)
{
  Pool P(r, r.i(1, 3));
  int m = r.i(1, 4);
  std::vector<PV> x;
  for(int k = r.i(1, 3); k > 0; --k)
  {
    auto v = P.any(1, 0.4);
    bool ok = true;
    for(auto & y : x)
      ok = ok && !y.p.intersects(v.p);
    if(ok)
      x.push_back(v);
  }
  auto f = std::make_shared<DynamicLinear>(m, x);
  for(auto & v : x)
    op("dynamic ", v.str());
  using O = DynamicLinear::Output;
  int what = r.i(0, 2); // value, velocity, both
  auto g = what == 0 ? utils::generateUpdateGraph(f, O::Value)
                     : what == 1 ? utils::generateUpdateGraph(f, O::Velocity) : utils::generateUpdateGraph(f, O::Velocity, O::Value);
  for(int k = r.i(1, 3); k > 0; --k)
  {
    P.randomize(2);
    f->next(r);
    g->execute();
    VectorXd val = f->c, vel = VectorXd::Zero(m);
    for(size_t i = 0; i < x.size(); ++i)
    {
      val += f->A[i] * x[i].v->value();
      vel += f->A[i] * dot(x[i].v)->value();
      VT_CHECK(close(MatrixXd(f->jacobian(*x[i].v)), f->A[i]), "F01-dynamic-jacobian", x[i].str());
      VT_CHECK(f->JDot(*x[i].v).isZero(0), "F01-dynamic-jdot", x[i].str());
    }
    if(what != 1)
      VT_CHECK(close(f->value(), val) && close(VectorXd(f->b()), f->c), "F01-dynamic-value", show(f->value()), " expected ", show(val));
    if(what != 0)
      VT_CHECK(close(f->velocity(), vel), "F01-dynamic-velocity", show(f->velocity()), " expected ", show(vel));
    VT_CHECK(f->normalAcceleration().isZero(0), "F01-dynamic-acceleration", show(f->normalAcceleration()));
    count("dynamic_checked");
  }
  nontrivial();
}

void caseUserF(Rng & r)
{
  // variables: Euclidean pool + a few manifold products
  Pool P(r, r.i(1, 3));
  struct MV
  {
    VariablePtr v;
    std::vector<Space> parts;
  };
  std::vector<MV> mv;
  for(int k = r.i(0, 2); k > 0; --k)
  {
    MV w;
    Space s(0);
    int n = r.i(2, 3);
    for(int i = 0; i < n; ++i)
    {
      Space p = r.b() ? Space(r.i(1, 3)) : r.b() ? Space(Space::Type::SO3) : Space(Space::Type::SE3);
      w.parts.push_back(p);
      s = i ? s * p : p;
    }
    w.v = s.createVariable("m");
    mv.push_back(w);
  }
  struct E
  {
    VariablePtr v;
    Part p;
    bool lin;
    int mvi; // index of manifold variable or -1
    MatrixXd J, JD;
  };
  int m = r.i(1, 4);
  auto f = std::make_shared<UserF>(m);
  std::vector<E> es;
  int n = r.i(4, 14);
  for(int k = 0; k < n; ++k)
  {
    int what = r.i(0, 9);
    if(what < 4)
    {
      E e;
      e.lin = r.b();
      e.mvi = -1;
      if(mv.size() && r.b(0.4))
      {
        e.mvi = r.i(0, static_cast<int>(mv.size()) - 1);
        e.v = mv[static_cast<size_t>(e.mvi)].v;
        e.p = {100 + e.mvi, 0, 0, e.v->space().tSize()};
      }
      else
      {
        auto v = P.any(1, 0.5);
        e.v = v.v;
        e.p = v.p;
      }
      bool contained = false, inter = false;
      for(auto & o : es)
      {
        contained = contained || o.p.contains(e.p);
        inter = inter || o.p.intersects(e.p);
      }
      op("add ", e.p.base, ".", e.p.order, ".", e.p.t, ".", e.p.n, " ", e.lin);
      bool th = throws([&] { f->addVariable(e.v, e.lin); });
      VT_CHECK(th == (inter && !contained), "F01-add-variable", "threw ", th, " contained ", contained, " inter ", inter);
      if(!contained && !inter)
      {
        e.J = r.dmat(m, e.p.n);
        e.JD = r.dmat(m, e.p.n);
        f->J(*e.v) = e.J;
        f->JD(*e.v) = e.JD;
        es.push_back(e);
      }
    }
    else if(what < 6)
    {
      // remove, possibly through another handle of the same variable, possibly something absent
      Part p;
      VariablePtr v;
      if(es.size() && r.b(0.7))
      {
        auto & e = r.pick(es);
        p = e.p;
        v = e.v;
        if(e.mvi < 0 && r.b(0.3))
          v = P.sub(p.base, p.order, p.t, p.n).v;
      }
      else
      {
        auto w = P.any(1, 0.5);
        p = w.p;
        v = w.v;
      }
      auto it = std::find_if(es.begin(), es.end(), [&](const E & e) { return e.p == p; });
      op("remove ", p.base, ".", p.order, ".", p.t, ".", p.n);
      bool th = throws([&] { f->removeVariable(v); });
      VT_CHECK(th == (it == es.end()), "F01-remove-variable", "threw ", th, " present ", it != es.end());
      if(it != es.end())
        es.erase(it);
      else
        count("refused_removals");
    }
    else if(what < 7 && es.size())
    {
      // split of a stacked jacobian
      int c = 0;
      std::vector<VariablePtr> vs;
      auto idx = std::vector<size_t>();
      for(size_t i = 0; i < es.size(); ++i)
        idx.push_back(i);
      r.shuffle(idx);
      idx.resize(static_cast<size_t>(r.i(1, static_cast<int>(idx.size()))));
      for(auto i : idx)
      {
        vs.push_back(es[i].v);
        c += es[i].p.n;
      }
      MatrixXd S = r.dmat(m, c);
      op("split ", idx.size());
      f->splitJacobian(S, vs, r.b());
      c = 0;
      for(auto i : idx)
      {
        es[i].J = S.middleCols(c, es[i].p.n);
        c += es[i].p.n;
      }
    }
    else if(what < 8)
    {
      m = r.i(1, 5);
      op("resize ", m);
      f->rs(m);
      for(auto & e : es)
      {
        VT_CHECK(f->jacobian(*e.v).rows() == m && f->JDot(*e.v).rows() == m, "F01-resize", m);
        e.J = r.dmat(m, e.p.n);
        e.JD = r.dmat(m, e.p.n);
        f->J(*e.v) = e.J;
        f->JD(*e.v) = e.JD;
      }
    }
    // observe
    VT_CHECK(f->value().size() == m && f->velocity().size() == m && f->normalAcceleration().size() == m && f->size() == m,
             "F01-cache-size", m);
    int tot = 0;
    VT_CHECK(f->variables().numberOfVariables() == static_cast<int>(es.size()), "F01-user-variables", es.size());
    for(size_t i = 0; i < es.size(); ++i)
    {
      auto & e = es[i];
      tot += e.v->size();
      VT_CHECK(*f->variables()[static_cast<int>(i)] == *e.v, "F01-user-variable-order", i);
      auto J = f->jacobian(*e.v);
      VT_CHECK(same(J, e.J), "F01-user-jacobian", show(J), " want ", show(e.J));
      VT_CHECK(same(f->JDot(*e.v), e.JD), "F01-user-jdot", show(f->JDot(*e.v)), " want ", show(e.JD));
      VT_CHECK(f->linearIn(*e.v) == e.lin, "F01-user-linear", e.lin);
      // a part of it
      if(e.mvi < 0)
      {
        PV pv{e.v, e.p};
        auto s = P.subOf(pv);
        int c = s.p.t - e.p.t;
        VT_CHECK(same(f->jacobian(*s.v), e.J.middleCols(c, s.p.n)), "F01-user-jacobian-part", s.str());
        VT_CHECK(same(f->JDot(*s.v), e.JD.middleCols(c, s.p.n)), "F01-user-jdot-part", s.str());
        VT_CHECK(f->linearIn(*s.v) == e.lin, "F01-user-linear-part", s.str());
      }
      else
      {
        auto & w = mv[static_cast<size_t>(e.mvi)];
        int a = r.i(0, static_cast<int>(w.parts.size()) - 1);
        Space shift(0);
        for(int q = 0; q < a; ++q)
          shift = q ? shift * w.parts[static_cast<size_t>(q)] : w.parts[static_cast<size_t>(q)];
        auto s = e.v->subvariable(w.parts[static_cast<size_t>(a)], "p", shift);
        int c = shift.tSize(), d = w.parts[static_cast<size_t>(a)].tSize();
        VT_CHECK(same(f->jacobian(*s), e.J.middleCols(c, d)), "F01-manifold-jacobian-part", c, "+", d);
        VT_CHECK(same(f->JDot(*s), e.JD.middleCols(c, d)), "F01-manifold-jdot-part", c, "+", d);
        count("manifold_parts");
      }
    }
    VT_CHECK(f->variables().totalSize() == tot, "F01-user-total", tot);
  }
  nontrivial();
}

// ------------------------------------------------------------------------------------------------ linear constraints
using constraint::RHS;
using constraint::Type;
const char * TN[] = {"EQ", "GT", "LT", "DS"};
const char * RN[] = {"ZERO", "GIVEN", "OPP"};

struct Cst
{
  std::shared_ptr<BasicLinearConstraint> c;
  LinModel M;
  Type t;
  RHS rhs;
  VectorXd b, l, u;
  bool hasA = true, hasRhs = true;
};

void checkCst(Cst & C, Pool & P, Rng & r, graph::CallGraph * g)
{
  auto & c = *C.c;
  using O = constraint::abstract::Constraint::Output;
  VT_CHECK(c.type() == C.t && c.rhs() == C.rhs && c.isEquality() == (C.t == Type::EQUAL), "F02-type", TN[int(C.t)]);
  VT_CHECK(c.size() == C.M.m, "F02-size", c.size());
  checkJacobians(c, C.M, P, r, "F02");
  bool useE = C.t == Type::EQUAL && C.rhs != RHS::ZERO;
  bool useL = (C.t == Type::GREATER_THAN || C.t == Type::DOUBLE_SIDED) && C.rhs != RHS::ZERO;
  bool useU = (C.t == Type::LOWER_THAN || C.t == Type::DOUBLE_SIDED) && C.rhs != RHS::ZERO;
  VT_CHECK(c.isOutputEnabled(O::E) == useE && c.isOutputEnabled(O::L) == useL && c.isOutputEnabled(O::U) == useU,
           "F02-outputs", TN[int(C.t)], " ", RN[int(C.rhs)]);
  if(useE)
    VT_CHECK(same(c.e(), C.b), "F02-e", show(c.e()), " want ", show(C.b));
  if(useL)
    VT_CHECK(same(c.l(), C.l), "F02-l", show(c.l()), " want ", show(C.l));
  if(useU)
    VT_CHECK(same(c.u(), C.u), "F02-u", show(c.u()), " want ", show(C.u));
  if(g)
    g->execute();
  else
    c.updateValue();
  VectorXd v = C.M.at(0);
  VT_CHECK(close(c.value(), v), "F02-value", "got ", show(c.value()), " want ", show(v));
}

bool makeCst(Rng & r, Pool & P, Cst & C)
{
  int m = r.i(1, 4);
  C.M.m = m;
  C.t = static_cast<Type>(r.i(0, 3));
  C.rhs = static_cast<RHS>(r.i(0, 2));
  int kind = r.i(0, 3); // 0: no rhs, 1: b, 2: l,u, 3: sized
  if(r.b(0.8)) // mostly legal combinations
  {
    if(kind == 0)
      C.rhs = RHS::ZERO, C.t = static_cast<Type>(r.i(0, 2));
    if(kind == 1)
      C.rhs = static_cast<RHS>(r.i(1, 2)), C.t = static_cast<Type>(r.i(0, 2));
    if(kind == 2)
      C.rhs = static_cast<RHS>(r.i(1, 2)), C.t = Type::DOUBLE_SIDED;
  }
  std::vector<MatrixXd> A;
  std::vector<PV> x;
  bool ok = true;
  if(kind == 3)
  {
    int n = r.i(1, 3);
    std::vector<VariablePtr> vars;
    for(int k = 0; k < n; ++k)
    {
      auto v = P.any(1, 0.4);
      bool in = false;
      for(auto & y : C.M.vars)
        in = in || y.p.intersects(v.p);
      if(in)
        continue;
      C.M.add(r.dmat(m, v.p.n), v);
      vars.push_back(v.v);
    }
    ok = !(C.t == Type::DOUBLE_SIDED && C.rhs == RHS::ZERO);
    op("sized ", TN[int(C.t)], RN[int(C.rhs)], " ", m);
    bool th = throws([&] {
      C.c = vars.size() == 1 && r.b() ? std::make_shared<BasicLinearConstraint>(m, vars[0], C.t, C.rhs)
                                      : std::make_shared<BasicLinearConstraint>(m, vars, C.t, C.rhs);
    });
    VT_CHECK(th == !ok, "F02-construction-check", "sized threw ", th);
    if(!ok)
      return false;
    for(size_t k = 0; k < C.M.vars.size(); ++k)
      C.c->A(C.M.J[k], *C.M.vars[k].v);
    C.b = r.dvec(m);
    C.l = r.dvec(m);
    C.u = r.dvec(m);
    if(C.rhs != RHS::ZERO)
    {
      if(C.t == Type::DOUBLE_SIDED)
      {
        C.c->l(C.l);
        C.c->u(C.u);
      }
      else
      {
        C.c->b(C.b);
        C.l = C.u = C.b;
      }
    }
    return true;
  }
  randomTerms(r, P, m, 1, A, x);
  for(size_t k = 0; k < x.size() && ok; ++k)
    ok = C.M.add(A[k], x[k]);
  std::vector<VariablePtr> vars;
  for(auto & v : x)
    vars.push_back(v.v);
  int flaw = r.i(0, 11);
  C.b = r.dvec(m);
  C.l = r.dvec(m);
  C.u = r.dvec(m);
  VectorXd b = C.b, l = C.l, u = C.u;
  if(flaw == 1)
    A.back() = r.dmat(m, x.back().p.n + 1), ok = false;
  if(flaw == 2)
    A.push_back(r.dmat(m, 1)), ok = false;
  if(flaw == 3 && kind >= 1)
  {
    ok = false;
    if(kind == 1)
      b = r.dvec(m + 1);
    else if(r.b())
      l = r.dvec(m + 1);
    else
      u = r.dvec(m + 1);
  }
  if(flaw == 4 && A.size() > 1)
    A.back() = r.dmat(m + 1, x.back().p.n), ok = false;
  std::string w = vt::str("cst", kind, " ", TN[int(C.t)], RN[int(C.rhs)], " m", m, " flaw", flaw);
  for(auto & v : x)
    w += " " + v.str();
  op(w);
  bool single = x.size() == 1 && A.size() == 1 && r.b();
  bool th = false;
  if(kind == 0)
  {
    C.rhs = RHS::ZERO;
    ok = ok && C.t != Type::DOUBLE_SIDED;
    th = throws([&] {
      C.c = single ? std::make_shared<BasicLinearConstraint>(A[0], vars[0], C.t)
                   : std::make_shared<BasicLinearConstraint>(refs(A), vars, C.t);
    });
  }
  else if(kind == 1)
  {
    ok = ok && C.t != Type::DOUBLE_SIDED && C.rhs != RHS::ZERO;
    bool def = C.rhs == RHS::AS_GIVEN && r.b();
    th = throws([&] {
      C.c = single ? (def ? std::make_shared<BasicLinearConstraint>(A[0], vars[0], b, C.t)
                          : std::make_shared<BasicLinearConstraint>(A[0], vars[0], b, C.t, C.rhs))
                   : std::make_shared<BasicLinearConstraint>(refs(A), vars, b, C.t, C.rhs);
    });
    C.l = C.u = C.b;
  }
  else
  {
    C.t = Type::DOUBLE_SIDED;
    ok = ok && C.rhs != RHS::ZERO;
    th = throws([&] {
      C.c = single ? std::make_shared<BasicLinearConstraint>(A[0], vars[0], l, u, C.rhs)
                   : std::make_shared<BasicLinearConstraint>(refs(A), vars, l, u, C.rhs);
    });
  }
  VT_CHECK(th == !ok, "F02-construction-check", w, " threw ", th);
  if(!ok)
  {
    count("refused_constructions");
    return false;
  }
  return true;
}

void caseCst(Rng & r)
{
  Pool P(r, r.i(1, 3));
  Cst C;
  if(!makeCst(r, P, C))
    return;
  using CO = constraint::abstract::Constraint;
  auto g = utils::generateUpdateGraph(std::static_pointer_cast<constraint::abstract::LinearConstraint>(C.c),
                                      tvm::internal::FirstOrderProvider::Output::Value);
  // requesting an output that the constraint does not have is refused
  for(auto o : {CO::Output::L, CO::Output::U, CO::Output::E})
  {
    bool en = C.c->isOutputEnabled(o);
    bool th = throws([&] { utils::generateUpdateGraph(std::static_pointer_cast<CO>(C.c), o); });
    VT_CHECK(th == !en, "F02-request", int(o), " enabled ", en, " threw ", th);
  }
  int n = r.i(2, 6);
  for(int k = 0; k < n; ++k)
  {
    checkCst(C, P, r, r.b() ? g.get() : nullptr);
    P.randomize(1);
    int what = r.i(0, 4);
    bool wrong = r.b(0.2);
    VectorXd v = r.dvec(wrong ? C.M.m + 1 : C.M.m);
    bool okB = C.t != Type::DOUBLE_SIDED && C.rhs != RHS::ZERO && !wrong;
    bool okLU = C.t == Type::DOUBLE_SIDED && C.rhs != RHS::ZERO && !wrong;
    op("set ", what, wrong);
    if(what == 0)
    {
      VT_CHECK(throws([&] { C.c->b(v); }) == !okB, "F02-set-b", TN[int(C.t)], RN[int(C.rhs)]);
      if(okB)
        C.b = C.l = C.u = v;
    }
    else if(what == 1)
    {
      VT_CHECK(throws([&] { C.c->l(v); }) == !okLU, "F02-set-l", TN[int(C.t)], RN[int(C.rhs)]);
      if(okLU)
        C.l = v;
    }
    else if(what == 2)
    {
      VT_CHECK(throws([&] { C.c->u(v); }) == !okLU, "F02-set-u", TN[int(C.t)], RN[int(C.rhs)]);
      if(okLU)
        C.u = v;
    }
    else
    {
      size_t i = static_cast<size_t>(r.i(0, static_cast<int>(C.M.vars.size()) - 1));
      MatrixXd A = r.dmat(wrong ? C.M.m + 1 : C.M.m, C.M.vars[i].p.n);
      bool shortcut = r.b(0.3);
      bool ok = !wrong && (!shortcut || C.M.vars.size() == 1);
      VT_CHECK(throws([&] {
                 if(shortcut)
                   C.c->A(A);
                 else
                   C.c->A(A, *C.M.vars[i].v);
               })
                   == !ok,
               "F02-set-A", shortcut, wrong);
      if(ok)
        C.M.J[i] = A;
    }
  }
  checkCst(C, P, r, g.get());
  nontrivial();
}

// -------------------------------------------------------------------------------------------------- affine expressions
struct AffCtx
{
  Rng & r;
  Pool & P;
  PV x, y, z;
  int n, m;
  MatrixXd A, B, C, S; // m x n, S n x n
  MatrixXd D;          // m x m
  VectorXd b, c, d, v; // size m, m, n, n
  double s;
};

template<typename F>
void affine(AffCtx & k, int id, bool square, F && expr)
{
  op("expr ", id, " ", k.x.str(), k.y.str(), k.z.str());
  std::shared_ptr<BasicLinearFunction> f;
  expr(k.x.v, k.y.v, k.z.v, [&](const auto & e) { f = std::make_shared<BasicLinearFunction>(e); });
  int rows = square ? k.n : k.m;
  VT_CHECK(f->size() == rows, "A01-size", f->size());
  // values through the expression of plain vectors
  auto eval = [&](int order, bool zero) {
    auto val = [&](const PV & p) {
      VectorXd w = zero ? VectorXd::Zero(k.n).eval() : VectorXd((order ? dot(p.v, order) : p.v)->value());
      return w;
    };
    VectorXd x = val(k.x), y = val(k.y), z = val(k.z), res;
    expr(x, y, z, [&](const auto & e) { res = e; });
    return res;
  };
  for(int t = 0; t < 3; ++t)
  {
    f->updateValue();
    f->updateVelocity();
    VectorXd want = eval(0, false);
    VT_CHECK(close(f->value(), want), "A01-value", "expr ", id, " got ", show(f->value()), " want ", show(want));
    VectorXd dw = eval(1, false) - eval(0, true);
    VT_CHECK(close(f->velocity(), dw), "A01-velocity", "expr ", id, " got ", show(f->velocity()), " want ", show(dw));
    VT_CHECK(close(f->b(), eval(0, true)), "A01-b", "expr ", id, " got ", show(f->b()));
    truthful(f->b().properties(), f->b(), "b of expr");
    k.P.randomize(2);
  }
  // the function depends on exactly the coordinates of the used variables, without overlap
  std::map<std::pair<int, int>, std::vector<int>> cov;
  for(int i = 0; i < f->variables().numberOfVariables(); ++i)
  {
    auto w = f->variables()[i];
    truthful(f->jacobian(*w).properties(), f->jacobian(*w), "jacobian of expr");
    VT_CHECK(f->linearIn(*w), "A01-linear", w->name());
    bool found = false;
    for(size_t b = 0; b < k.P.base.size() && !found; ++b)
      for(int o = 0; o <= 2 && !found; ++o)
      {
        auto wb = k.P.whole(static_cast<int>(b), o).v;
        if(wb->contains(*w))
        {
          found = true;
          auto & cv = cov[{static_cast<int>(b), o}];
          cv.resize(static_cast<size_t>(k.P.sizes[b]), 0);
          auto rg = w->tSubvariableRange();
          for(int q = 0; q < rg.dim; ++q)
            cv[static_cast<size_t>(rg.start + q)]++;
        }
      }
    VT_CHECK(found, "A01-variable", w->name());
  }
  for(auto & c : cov)
    for(size_t q = 0; q < c.second.size(); ++q)
      VT_CHECK(c.second[q] <= 1, "A01-overlap", "coordinate covered ", c.second[q], " times");
  count("expressions");
  nontrivial();
}

#define EX(id, sq, e)                                                       \
  case id:                                                                  \
    affine(k, id, sq, [&](const auto & x, const auto & y, const auto & z, auto && out) { \
      (void)x, (void)y, (void)z;                                            \
      out(e);                                                               \
    });                                                                     \
    break;

/** A handle that only lives until the end of the full expression, as dot(x) or a subvariable. */
VariablePtr tmp(const VariablePtr & v) { return v; }
const VectorXd & tmp(const VectorXd & v) { return v; }

#define EXS(id, sq, ...)                                                    \
  case id:                                                                  \
    affine(k, id, sq, [&](const auto & x, const auto & y, const auto & z, auto && out) { \
      (void)x, (void)y, (void)z;                                            \
      __VA_ARGS__                                                           \
    });                                                                     \
    break;

void caseAffine(Rng & r)
{
  Pool P(r, r.i(1, 3), 6);
  AffCtx k{r, P, {}, {}, {}, 1, 1, {}, {}, {}, {}, {}, {}, {}, {}, {}, 1};
  int mx = *std::max_element(P.sizes.begin(), P.sizes.end());
  k.n = r.i(1, mx);
  k.m = r.i(1, 4);
  auto win = [&] {
    for(;;)
    {
      int i = r.i(0, static_cast<int>(P.base.size()) - 1);
      if(P.sizes[static_cast<size_t>(i)] >= k.n)
        return P.sub(i, r.b(0.2) ? 1 : 0, r.i(0, P.sizes[static_cast<size_t>(i)] - k.n), k.n);
    }
  };
  k.x = win();
  k.y = r.b(0.2) ? k.x : win();
  k.z = win();
  k.A = r.dmat(k.m, k.n);
  k.B = r.dmat(k.m, k.n);
  k.C = r.dmat(k.n, k.m);
  k.S = r.dmat(k.n, k.n);
  k.D = r.dmat(k.m, k.m);
  k.b = r.dvec(k.m);
  k.c = r.dvec(k.m);
  k.d = r.dvec(k.n);
  k.v = r.dvec(k.n);
  do
    k.s = r.dyadic(2);
  while(k.s == 0);
  switch(r.i(1, 62))
  {
    EX(1, false, k.A * x)
    EX(2, false, k.A * x + k.b)
    EX(3, false, k.b + k.A * x)
    EX(4, false, k.A * x + k.B * y)
    EX(5, false, k.A * x + k.B * y + k.b)
    EX(6, false, k.A * x - k.B * y - k.b)
    EX(7, false, k.A * x + k.B * y + k.A * z + k.b + k.c)
    EX(8, false, k.b + (k.A * x - k.B * y))
    EX(9, false, -(k.A * x + k.B * y - k.b))
    EX(10, false, k.s * (k.A * x + k.B * y - k.b))
    EX(11, false, k.D * (k.A * x + k.B * y - k.b))
    EX(12, false, k.D * (k.A * x))
    EX(13, false, k.C.transpose() * x + k.b)
    EX(14, false, (k.A + k.B) * x + k.B * y)
    EX(15, false, (k.s * k.A) * x - k.B * y)
    EX(16, false, k.A * x - (k.B * y - k.A * z))
    EX(17, false, (k.A * x + k.b) + (k.B * y + k.c))
    EX(18, false, (k.A * x + k.b) - (k.B * y - k.c))
    EX(19, true, x + y)
    EX(20, true, x - y)
    EX(21, true, -x - y)
    EX(22, true, k.s * x + y)
    EX(23, true, k.s * x - k.s * y)
    EX(24, true, x + y + z)
    EX(25, true, x - y - z)
    EX(26, true, x - y + z - k.d)
    EX(27, true, k.d - x)
    EX(28, true, k.d + x)
    EX(29, true, x + k.d)
    EX(30, true, x - k.d)
    EX(31, true, k.S * x + y)
    EX(32, true, x + k.S * y)
    EX(33, true, x - k.S * y - k.d)
    EX(34, true, k.S * x - y + k.d)
    EX(35, true, -(x - k.d))
    EX(36, true, k.s * (x - k.d))
    EX(37, true, k.S * (x - k.d))
    EX(38, true, k.S * (x - y))
    EX(39, false, k.A * (x - y) + k.b)
    EX(40, false, k.A * (x - k.d) - k.B * (y - k.v))
    EX(41, true, (k.d + k.v) - x)
    EX(42, true, x - (k.d + k.v))
    EX(43, true, x + (k.s * k.d))
    EX(44, true, -x)
    EX(45, true, k.s * x)
    EX(46, true, -(-x))
    EX(47, true, k.s * (-x))
    EX(48, true, k.s * (k.s * x))
    EX(49, true, MatrixXd(k.d.asDiagonal()) * x + y)
    EX(50, true, k.S * x - k.S * y + k.S * z)
    EX(51, true, MatrixXd::Identity(k.n, k.n) * x - y)
    EX(52, true, 2. * MatrixXd::Identity(k.n, k.n) * x + k.d)
    EX(53, true, (k.S * k.S) * x + x)
    EX(54, false, k.A.topRows(k.m) * x + k.b)
    EX(55, false, MatrixXd::Identity(k.m, k.n) * x + k.b)
    EX(57, false, -(MatrixXd::Identity(k.m, k.n) * x) + k.B * y)
    EX(58, false, k.s * (MatrixXd::Identity(k.m, k.n) * x) - k.b)
    // expressions that are stored before they are used
    EXS(59, false, auto e = k.A * tmp(x); out(e);)
    EXS(60, false, auto e = k.A * tmp(x) + k.B * tmp(y); auto e2 = e + k.b; out(e2);)
    EXS(61, true, auto e = tmp(x) - tmp(y); auto e2 = e - k.d; auto e3 = -e2; out(e3);)
    EXS(62, true, auto e = -tmp(x); auto e2 = e + k.S * tmp(y); out(e2 + k.s * tmp(z));)
    EX(56, false, k.A * x + k.B * x - k.A * x)
  }
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, [](Rng & r) {
#if FOCUS == 1
    if(r.b(0.1))
      caseDynamic(r);
    else if(r.b(0.5))
      caseLinF(r);
    else
      caseUserF(r);
#elif FOCUS == 2
    caseCst(r);
#elif FOCUS == 4
    caseAffine(r);
#else
    try
    {
      int k = r.i(0, 2);
      if(k == 0)
        caseLinF(r);
      else if(k == 1)
        caseCst(r);
      else
        caseAffine(r);
    }
    catch(const Violation & v)
    {
      if(v.key.compare(0, 3, "P02") == 0)
        throw;
      count("stopped_by_other_property");
    }
#endif
  });
}

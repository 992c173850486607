// N02: malformed arguments are refused, well-formed ones are not, and what was there stays.
#include "qf.h"
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/SchemeAbilities.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/ProtoTask.h>
#include <tvm/utils/UpdatelessFunction.h>
#include <tvm/utils/AffineExpr.h>

using namespace vt;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using constraint::RHS;
using constraint::Type;
using CLC = constraint::BasicLinearConstraint;
using BLF = function::BasicLinearFunction;

namespace
{
/** What is asked must be refused exactly when \p bad is true. */
template<typename F>
bool ask(bool bad, const char * what, F && f)
{
  op(what, bad ? " bad" : " good");
  std::string why;
  bool refused = false;
  try
  {
    f();
  }
  catch(const Violation &)
  {
    throw;
  }
  catch(const std::exception & e)
  {
    refused = true;
    why = e.what();
  }
  count(bad ? "malformed" : "wellformed");
  VT_CHECK(!bad || refused, "N02-accepted", what);
  VT_CHECK(bad || !refused, "N02-refused", what, ": ", why);
  return !refused;
}
/** Another size than n, at least lo. */
int other(Rng & r, int n, int lo = 0)
{
  int k = n;
  while(k == n)
    k = r.i(lo, n + 2);
  return k;
}
VariablePtr var(Rng & r, int n, const char * name = "x")
{
  VariablePtr v = Space(n).createVariable(name);
  v->set(r.vec(n));
  return v;
}

void variables(Rng & r)
{
  int n = r.i(1, 5);
  VariablePtr x = var(r, n);
  if(r.b(0.3))
  {
    x = dot(x, r.i(1, 2));
    x->set(r.vec(n));
  }
  VectorXd before = x->value();
  auto kept = [&] { VT_CHECK(same(x->value(), before), "N02-changed", "value of a variable"); };
  bool bad = r.b();
  VectorXd v = r.vec(bad ? other(r, n) : n);
  if(ask(bad, "set", [&] { x->set(v); }))
    before = v;
  kept();
  int i = bad ? (r.b() ? -r.i(1, 3) : n + r.i(0, 2)) : r.i(0, n - 1);
  double d = r.d();
  if(ask(bad, "set element", [&] { x->set(i, d); }))
    before[i] = d;
  kept();
  int s = r.i(0, n - 1), l = r.i(0, n - s);
  int k = l;
  if(bad)
    switch(r.i(0, 2))
    {
      case 0:
        k = other(r, l);
        break;
      case 1:
        s = -r.i(1, 2);
        break;
      default:
        l = n - s + r.i(1, 2);
        k = l;
    }
  VectorXd w = r.vec(k);
  if(ask(bad, "set segment", [&] { x->set(s, l, w); }))
    before.segment(s, l) = w;
  kept();
  // parts
  int t = r.i(0, n - 1), m = r.i(1, n - t);
  if(bad)
    m = n - t + r.i(1, 2);
  ask(bad, "subvariable", [&] {
    auto y = x->subvariable(Space(m), "y", Space(t));
    VT_CHECK(y->size() == m && same(y->value(), before.segment(t, m)), "N02-good", "subvariable");
  });
  int o = x->derivativeNumber();
  ask(o < 1, "primitive<1>", [&] { x->primitive<1>(); });
  ask(o < 2, "primitive<2>", [&] { x->primitive<2>(); });
  ask(true, "primitive<3>", [&] { x->primitive<3>(); });
  ask(true, "space", [&] { Space(Space::Type::Unspecified, r.i(-1, 4)); });
  kept();
}

void vectors(Rng & r)
{
  int n = r.i(3, 6);
  VariablePtr x = var(r, n), z = var(r, 2, "z"), w = var(r, 2, "w");
  VariableVector vv;
  VariablePtr a = x->subvariable(Space(n - 2), "a", Space(1));
  VariablePtr held = r.b() ? x : a;
  vv.add(held);
  vv.add(z);
  if(r.b())
    vv.add(dot(x));
  std::vector<VariablePtr> before = vv.variables();
  int size = vv.totalSize();
  auto kept = [&] {
    VT_CHECK(vv.totalSize() == size && vv.numberOfVariables() == static_cast<int>(before.size()), "N02-changed", "vector of variables");
    for(size_t i = 0; i < before.size(); ++i)
      VT_CHECK(vv[static_cast<int>(i)] == before[i], "N02-changed", "variable of a vector");
  };
  // intersecting but different variables
  VariablePtr b = held == x ? x->subvariable(Space(1), "b", Space(r.i(0, n - 1))) : r.b() ? x : x->subvariable(Space(2), "b", Space(0));
  if(held == a && b->size() == 2 && n - 2 < 1)
    return;
  switch(r.i(0, 2))
  {
    case 0:
      ask(!held->contains(*b), "add intersecting", [&] { vv.add(b); });
      break;
    case 1:
      ask(!held->contains(*b), "index of added intersecting", [&] { vv.addAndGetIndex(b); });
      break;
    default:
      ask(true, "mapping of not contained", [&] { vv.getMappingOf(r.b() ? *w : *dot(z)); });
  }
  kept();
  int i = r.b() ? -r.i(1, 3) : static_cast<int>(before.size()) + r.i(0, 3);
  ask(true, "remove index", [&] { vv.remove(i); });
  kept();
  int g = r.i(0, static_cast<int>(before.size()) - 1);
  ask(false, "remove index", [&] { vv.remove(g); });
  size -= before[static_cast<size_t>(g)]->size();
  before.erase(before.begin() + g);
  kept();
}

void functions(Rng & r)
{
  int m = r.i(1, 4), n = r.i(1, 4), q = r.i(1, 3);
  VariablePtr x = var(r, n), y = var(r, q, "y"), z = var(r, n, "z");
  MatrixXd A = r.mat(m, n), B = r.mat(m, q);
  VectorXd b = r.vec(m);
  bool bad = r.b();
  int k = bad ? r.i(0, 4) : 5;
  MatrixXd A1 = k == 0 ? r.mat(m, other(r, n, 1)) : A, B1 = k == 1 ? r.mat(other(r, m, 1), q) : B;
  VectorXd b1 = k == 2 ? r.vec(other(r, m)) : b;
  ask(bad, "linear function", [&] {
    std::vector<MatrixConstRef> M{A1};
    std::vector<VariablePtr> V{x};
    if(k != 3)
      M.push_back(B1);
    if(k != 4)
      V.push_back(y);
    if(k == 3 && r.b())
    {
      M.push_back(B1);
      V.push_back(z);
    }
    BLF(M, V, b1);
  });
  VariablePtr s = (r.b() ? Space(Space::Type::SO3) : Space(Space::Type::SE3)).createVariable("s");
  ask(true, "linear function of a manifold variable", [&] { BLF(r.mat(m, s->size()), s, b); });
  BLF f({A, B}, {x, y}, b);
  auto kept = [&] {
    VT_CHECK(same(MatrixXd(f.jacobian(*x)), A) && same(MatrixXd(f.jacobian(*y)), B) && same(VectorXd(f.b()), b), "N02-changed",
             "linear function");
    VT_CHECK(f.variables().numberOfVariables() == 2, "N02-changed", "variables of a linear function");
  };
  switch(r.i(0, 3))
  {
    case 0: {
      MatrixXd N = bad ? (r.b() ? r.mat(m, other(r, n, 1)) : r.mat(other(r, m, 1), n)) : r.mat(m, n);
      if(ask(bad, "matrix of a function", [&] { f.A(N, *x); }))
        A = N;
      break;
    }
    case 1:
      ask(true, "matrix for another variable", [&] { f.A(r.mat(m, n), *z); });
      break;
    case 2:
      ask(true, "matrix without variable", [&] { f.A(A); });
      break;
    default: {
      VectorXd c = bad ? r.vec(other(r, m)) : r.vec(m);
      if(ask(bad, "vector of a function", [&] { f.b(c); }))
        b = c;
    }
  }
  kept();
  function::IdentityFunction id(x);
  ask(true, "matrix of identity", [&] {
    if(r.b())
      static_cast<BLF &>(id).A(MatrixXd(MatrixXd::Identity(n, n)), *x);
    else
      static_cast<BLF &>(id).A(MatrixXd(MatrixXd::Identity(n, n)));
  });
  ask(true, "vector of identity", [&] { static_cast<BLF &>(id).b(r.vec(n)); });
  VT_CHECK(id.jacobian(*x).isIdentity(0) && VectorXd(static_cast<BLF &>(id).b()).isZero(0), "N02-changed", "identity");
  if(m > 0)
  {
    bool w = r.b();
    MatrixXd C = r.mat(w ? other(r, m, 1) : m, q);
    ask(w, "affine expression of incoherent rows", [&] { BLF g(A * x + C * y + b); });
    VectorXd c = r.vec(w ? other(r, m, 1) : m);
    ask(w, "affine expression of incoherent constant", [&] {
      BLF g(A * x + B * y + c);
    });
  }
}

void constraints(Rng & r)
{
  int m = r.i(1, 4), n = r.i(1, 4), q = r.i(1, 3);
  VariablePtr x = var(r, n), y = var(r, q, "y"), z = var(r, n, "z");
  MatrixXd A = r.mat(m, n), B = r.mat(m, q);
  VectorXd b = r.vec(m), u = b + r.vec(m, 0, 1);
  Type ct = r.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN});
  RHS cr = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
  bool bad = r.b();
  int k = bad ? r.i(0, 5) : 6;
  MatrixXd A1 = k == 0 ? r.mat(m, other(r, n, 1)) : A, B1 = k == 1 ? r.mat(other(r, m, 1), q) : B;
  VectorXd b1 = k == 2 ? r.vec(other(r, m)) : b, u1 = u;
  std::vector<MatrixConstRef> M{A1};
  std::vector<VariablePtr> V{x};
  if(k != 3)
    M.push_back(B1);
  else
    V.push_back(y);
  if(k != 4 && k != 3)
    V.push_back(y);
  switch(r.i(0, 2))
  {
    case 0:
      ask(bad && k != 2, "constraint without rhs", [&] { CLC(M, V, k == 5 ? Type::DOUBLE_SIDED : ct); });
      break;
    case 1:
      ask(bad, "constraint", [&] {
        bool ds = r.b();
        CLC(M, V, b1, k == 5 && ds ? Type::DOUBLE_SIDED : ct, k == 5 && !ds ? RHS::ZERO : cr);
      });
      break;
    default:
      if(k == 2 && r.b())
        std::swap(b1, u1);
      ask(bad, "double-sided constraint", [&] { CLC(M, V, b1, u1, k == 5 ? RHS::ZERO : cr); });
  }
  VariablePtr s = (r.b() ? Space(Space::Type::SO3) : Space(Space::Type::SE3)).createVariable("s");
  ask(true, "constraint on a manifold variable", [&] { CLC(r.mat(m, s->size()), s, b, ct, cr); });
  ask(true, "double-sided without rhs", [&] { CLC(2, x, Type::DOUBLE_SIDED, RHS::ZERO); });
  // setters
  bool ds = r.b(0.4), zero = !ds && r.b(0.3), one = r.b(0.4);
  std::unique_ptr<CLC> c;
  std::vector<MatrixConstRef> Mg{A};
  std::vector<VariablePtr> Vg{x};
  if(!one)
  {
    Mg.push_back(B);
    Vg.push_back(y);
  }
  if(ds)
    c = std::make_unique<CLC>(Mg, Vg, b, u, cr);
  else if(zero)
    c = std::make_unique<CLC>(Mg, Vg, ct);
  else
    c = std::make_unique<CLC>(Mg, Vg, b, ct, cr);
  VectorXd e = zero ? VectorXd(VectorXd::Zero(m)) : b, up = u;
  auto kept = [&] {
    VT_CHECK(same(MatrixXd(c->jacobian(*x)), A) && (one || same(MatrixXd(c->jacobian(*y)), B)), "N02-changed", "matrices of a constraint");
    if(zero)
      return;
    if(ds)
      VT_CHECK(same(c->l(), e) && same(c->u(), up), "N02-changed", "bounds of a constraint");
    else
    {
      const VectorXd & v = ct == Type::EQUAL ? c->e() : ct == Type::GREATER_THAN ? c->l() : c->u();
      VT_CHECK(same(v, e), "N02-changed", "rhs of a constraint");
    }
  };
  for(int it = r.i(1, 4); it > 0; --it)
  {
    bool wrong = r.b();
    VectorXd v = r.vec(wrong ? other(r, m) : m);
    switch(r.i(0, 5))
    {
      case 0:
        if(ask(wrong || ds || zero, "b", [&] { c->b(v); }))
          e = v;
        break;
      case 1:
        if(ask(wrong || !ds, "l", [&] { c->l(v); }))
          e = v;
        break;
      case 2:
        if(ask(wrong || !ds, "u", [&] { c->u(v); }))
          up = v;
        break;
      case 3: {
        MatrixXd N = wrong ? (r.b() ? r.mat(m, other(r, n, 1)) : r.mat(other(r, m, 1), n)) : r.mat(m, n);
        if(ask(wrong, "matrix of a constraint", [&] { c->A(N, *x); }))
          A = N;
        break;
      }
      case 4: {
        MatrixXd N = wrong ? r.mat(m, other(r, n, 1)) : r.mat(m, n);
        if(ask(wrong || !one, "matrix of the only variable", [&] { c->A(N); }))
          A = N;
        break;
      }
      default:
        ask(true, "matrix for another variable", [&] { c->A(r.mat(m, n), *z); });
    }
    kept();
  }
}

void tasks(Rng & r)
{
  using namespace task_dynamics;
  int n = r.i(2, 4), m = r.i(1, 4);
  Pool P(r, 2, 4);
  (void)n;
  std::vector<PV> pv{P.whole(0), P.whole(1)};
  FunctionPtr f = std::make_shared<QF>(r, m, pv, false);
  bool bad = r.b();
  VectorXd g = r.vec(m), w = r.vec(bad ? other(r, m, 1) : m);
  ask(bad, "f == v", [&] { f == w; });
  ask(bad, "f >= v", [&] { f >= w; });
  ask(bad, "f <= v", [&] { f <= w; });
  ask(bad, "l <= f <= u", [&] { w <= f <= g; });
  ask(bad, "l <= f <= u", [&] { g <= f <= w; });
  ask(bad, "u >= f >= l", [&] { w >= f >= g; });
  Type ct = r.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN});
  auto any = [&](auto && fn) {
    switch(r.i(0, 3))
    {
      case 0:
        fn(task_dynamics::P(1.));
        break;
      case 1:
        fn(task_dynamics::PD(1., 2.));
        break;
      case 2:
        fn(task_dynamics::Constant());
        break;
      default:
        fn(task_dynamics::OneStepToZero(task_dynamics::Order::One, 0.1));
    }
  };
  any([&](auto && td) {
    ask(bad, "task with one bound", [&] { Task(f, bad ? Type::DOUBLE_SIDED : ct, td, g); });
    ask(bad, "task without bound", [&] { Task(f, bad ? Type::DOUBLE_SIDED : ct, td); });
    ask(bad, "task with scalar bound", [&] { Task(f, bad ? Type::DOUBLE_SIDED : ct, td, 0.3); });
    ask(bad, "task with two bounds", [&] { Task(f, bad ? ct : Type::DOUBLE_SIDED, td, g, g); });
    ask(bad, "task with two scalar bounds", [&] { Task(f, bad ? ct : Type::DOUBLE_SIDED, td, -1., 1.); });
    ask(bad, "task with a wrong bound", [&] { Task(f, ct, td, w); });
    ask(bad, "task with a wrong lower bound", [&] { Task(f, Type::DOUBLE_SIDED, td, w, g); });
    ask(bad, "task with a wrong upper bound", [&] { Task(f, Type::DOUBLE_SIDED, td, g, w); });
  });
  Task t(f, Type::DOUBLE_SIDED, task_dynamics::P(2.), -g, g);
  ask(true, "dynamics of another type", [&] { t.taskDynamics<task_dynamics::PD>(); });
  ask(false, "dynamics of the type", [&] { t.taskDynamics<task_dynamics::P>(); });
  ask(true, "second dynamics of another type", [&] { t.secondBoundTaskDynamics<task_dynamics::PD>(); });
  ask(false, "second dynamics of the type", [&] { t.secondBoundTaskDynamics<task_dynamics::P>(); });
  Task t1(f, ct, task_dynamics::P(2.), g);
  ask(true, "second dynamics of a single-sided task", [&] { t1.secondBoundTaskDynamics<task_dynamics::P>(); });
}

void dynamics(Rng & r)
{
  using namespace task_dynamics;
  int m = r.i(1, 4);
  Pool P(r, 2, 4);
  std::vector<PV> pv{P.whole(0), P.whole(1)};
  auto qf = std::make_shared<QF>(r, m, pv, false);
  FunctionPtr f = qf;
  VectorXd rhs = r.vec(m);
  Type ct = r.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN});
  bool bad = r.b();
  int k = bad ? other(r, m, 1) : m;
  VectorXd gv = r.vec(k, 0.1, 2);
  bool cols = r.b();
  MatrixXd gm = (MatrixXd(bad && cols ? m : k, bad && !cols ? m : k)).setRandom();
  auto make = [&](const char * what, bool refuse, auto && td) { ask(refuse, what, [&] { td.impl(f, ct, rhs); }); };
  switch(r.i(0, 8))
  {
    case 0:
      make("P with a vector gain", bad, task_dynamics::P(gv));
      make("P with a matrix gain", bad, task_dynamics::P(gm));
      make("PD with a vector gain", bad, task_dynamics::PD(gv, r.d(0.1, 2)));
      make("PD with a vector gain", bad, task_dynamics::PD(r.d(0.1, 2), gv));
      make("PD with a matrix gain", bad, task_dynamics::PD(gm, r.d(0.1, 2)));
      make("PD with a matrix gain", bad, task_dynamics::PD(r.d(0.1, 2), gm));
      break;
    case 1: {
      auto p = task_dynamics::P(1.5).impl(f, ct, rhs);
      auto & pi = static_cast<task_dynamics::P::Impl &>(*p);
      const auto & cp = pi;
      auto kept = [&] { VT_CHECK(cp.gain().index() == 0 && mpark::get<double>(cp.gain()) == 1.5, "N02-changed", "gain"); };
      if(!ask(bad, "vector gain", [&] { pi.gain(gv); }))
        kept();
      else
        pi.gain(1.5);
      if(!ask(bad, "matrix gain", [&] { pi.gain(gm); }))
        kept();
      auto q = task_dynamics::PD(1.5, 0.5).impl(f, ct, rhs);
      auto & qi = static_cast<task_dynamics::PD::Impl &>(*q);
      const auto & cq = qi;
      auto keptD = [&] {
        auto gg = cq.gains();
        VT_CHECK(gg.first.index() == 0 && mpark::get<double>(gg.first) == 1.5, "N02-changed", "proportional gain");
        VT_CHECK(gg.second.index() == 0 && mpark::get<double>(gg.second) == 0.5, "N02-changed", "derivative gain");
      };
      VectorXd ok = r.vec(m, 0.1, 2);
      MatrixXd okm = r.mat(m, m);
      auto set = [&](auto && fn) {
        if(!ask(bad, "PD gains", fn))
          keptD();
        else
          qi.gains(1.5, 0.5);
      };
      set([&] { qi.gains(gv, ok); });
      set([&] { qi.gains(ok, gv); });
      set([&] { qi.gains(gm, okm); });
      set([&] { qi.gains(okm, gm); });
      set([&] { qi.gains(1., gv); });
      set([&] { qi.gains(1., gm); });
      set([&] { qi.gains(gv, 1.); });
      set([&] { qi.gains(gm, 1.); });
      set([&] { qi.gains(gv, okm); });
      set([&] { qi.gains(ok, gm); });
      set([&] { qi.gains(gm, ok); });
      set([&] { qi.gains(okm, gv); });
      set([&] { qi.gains(gv); });
      break;
    }
    case 2: {
      double s = bad ? -r.d(0.01, 2) : r.d(0, 2);
      ask(bad, "clamp by a scalar", [&] { Clamped<task_dynamics::P>(s, 1.); });
      double lo = bad && cols ? r.d(0.01, 2) : -r.d(0, 2), hi = bad && !cols ? -r.d(0.01, 2) : r.d(0, 2);
      ask(bad, "clamp by an interval", [&] { Clamped<task_dynamics::P>(std::make_pair(lo, hi), 1.); });
      VectorXd mx = r.vec(m, 0.1, 2), mn = -r.vec(m, 0.1, 2);
      int i = r.i(0, m - 1);
      int how = r.i(0, 3);
      if(bad && how == 0)
        mx[i] = -r.d(0.01, 1);
      if(bad && how == 1)
        mn[i] = r.d(0.01, 1);
      if(bad && how == 2)
        mx = r.vec(k, 0.1, 2);
      if(bad && how == 3)
        mn = -r.vec(k, 0.1, 2);
      ask(bad, "clamp by vectors", [&] {
        Clamped<task_dynamics::P>(std::pair<VectorConstRef, VectorConstRef>(mn, mx), 1.);
      });
      VectorXd both = r.vec(k, 0.1, 2);
      ask(bad, "clamp by a vector of another size", [&] {
        Clamped<task_dynamics::P> td{VectorConstRef(both), 1.};
        td.impl(f, ct, rhs);
      });
      break;
    }
    case 3: {
      auto pr = std::make_shared<Provider>(r.vec(k));
      ask(bad, "feed forward", [&] {
        FeedForward<task_dynamics::P> td(pr, &Provider::value, Provider::Output::Value, 1.);
        td.impl(f, ct, rhs);
      });
      break;
    }
    case 4: {
      double ds = r.d(0, 0.5), di = ds + r.d(0.01, 1), xsi = r.b() ? 0. : r.d(0.1, 2), off = r.b() ? 0. : r.d(0.1, 1);
      int how = bad ? r.i(0, 3) : 4;
      if(how == 0)
        di = ds - (r.b() ? 0 : r.d(0.01, 0.5));
      if(how == 1)
        ds = -r.d(0.01, 1);
      if(how == 2)
        xsi = -r.d(0.01, 1);
      if(how == 3)
        off = -r.d(0.01, 1);
      ask(bad, "damper configuration", [&] { VelocityDamper::Config(di, ds, xsi, off); });
      VelocityDamper::Config good{1, 0.1, 0.5};
      double big = bad ? -r.d(0, 1) * r.i(0, 1) : r.d(1, 10), dt = bad ? -r.d(0, 1) * r.i(0, 1) : r.d(0.01, 1);
      ask(bad, "damper big", [&] { VelocityDamper td(good, big); });
      ask(bad, "damper big", [&] { VelocityDamper td(0.1, good, big); });
      ask(bad, "damper dt", [&] { VelocityDamper td(dt, good); });
      break;
    }
    case 5: {
      VectorXd ds = r.vec(m, 0, 0.5), di = ds + r.vec(m, 0.01, 1), xsi = r.b() ? VectorXd(VectorXd::Zero(m)) : r.vec(m, 0.1, 2),
               off = r.vec(m, 0, 1);
      int i = r.i(0, m - 1), how = bad ? r.i(0, 5) : 6;
      if(how == 4 && m < 2)
        how = 0;
      if(how == 0)
        di[i] = ds[i] - (r.b() ? 0 : 0.3);
      if(how == 1)
        ds[i] = -0.1;
      if(how == 2)
      {
        xsi = r.vec(m, 0.1, 2);
        xsi[i] = -0.1;
      }
      if(how == 3)
        off[i] = -0.1;
      if(how == 4)
      {
        xsi = r.vec(m, 0.1, 2);
        xsi[i] = 0;
      }
      if(how == 5)
      {
        VectorXd l = r.vec(k, 0.1, 0.4);
        switch(r.i(0, 3))
        {
          case 0:
            di = l.array() + 2;
            break;
          case 1:
            ds = l;
            break;
          case 2:
            xsi = l;
            break;
          default:
            off = l;
        }
      }
      bool withOff = how == 3 || (how == 5) || r.b();
      ask(bad, "anisotropic damper configuration", [&] {
        if(withOff)
          VelocityDamper::AnisotropicConfig c{VectorConstRef(di), VectorConstRef(ds), VectorConstRef(xsi), VectorConstRef(off)};
        else
          VelocityDamper::AnisotropicConfig c{VectorConstRef(di), VectorConstRef(ds), VectorConstRef(xsi)};
      });
      // a configuration for another size
      VectorXd one = VectorXd::Constant(k, 1.), half = VectorXd::Constant(k, 0.1);
      Type it = r.b() ? Type::GREATER_THAN : Type::LOWER_THAN;
      ask(bad && k != 1, "damper for another size", [&] {
        VelocityDamper td(VelocityDamper::AnisotropicConfig{VectorConstRef(one), VectorConstRef(half), VectorConstRef(one)});
        td.impl(f, it, rhs);
      });
      break;
    }
    case 6: {
      auto o = bad ? (r.b() ? static_cast<task_dynamics::Order>(0) : static_cast<task_dynamics::Order>(3))
                   : static_cast<task_dynamics::Order>(r.i(1, 2));
      ask(bad, "order of one step to zero", [&] { OneStepToZero td(o, 0.1); });
      double dt = bad ? -r.d(0, 1) * r.i(0, 1) : r.d(0.01, 1);
      ask(bad, "step of one step to zero", [&] { OneStepToZero td(task_dynamics::Order::One, dt); });
      break;
    }
    case 7: {
      FunctionPtr ref = std::make_shared<QF>(r, k, pv, false);
      make("reference velocity", bad, ReferenceVelocity(ref));
      make("reference acceleration", bad, ReferenceAcceleration(ref));
      make("null reference", true, ReferenceVelocity(nullptr));
      break;
    }
    default: {
      FunctionPtr lf = std::make_shared<BLF>(r.mat(m, pv[0].p.n), pv[0].v, r.vec(m));
      ask(bad, "no dynamics", [&] { None().impl(bad ? f : lf, ct, rhs); });
      VectorXd v = r.vec(k);
      ask(bad, "rhs of dynamics", [&] {
        switch(r.i(0, 2))
        {
          case 0:
            task_dynamics::P(1.).impl(f, ct, v);
            break;
          case 1:
            task_dynamics::PD(1.).impl(f, ct, v);
            break;
          default:
            Constant().impl(f, ct, v);
        }
      });
    }
  }
}

void requirementsCase(Rng & r)
{
  using namespace requirements;
  bool bad = r.b();
  int n = r.i(1, 4);
  double w = bad ? -r.d(0.01, 3) : r.i(0, 3) * r.d(0, 1);
  ask(bad, "weight", [&] { SolvingRequirements s{Weight(w)}; });
  int p = bad ? -r.i(1, 4) : r.i(0, 4);
  ask(bad, "priority", [&] { SolvingRequirements s{PriorityLevel(p)}; });
  VectorXd a = r.vec(n, 0, 2);
  if(bad)
    a[r.i(0, n - 1)] = -r.d(0.01, 1);
  ask(bad, "anisotropic weight", [&] { SolvingRequirements s{AnisotropicWeight(a)}; });
  VectorXd good = r.vec(n, 0, 2);
  SolvingRequirementsWithCallbacks rc(SolvingRequirements(PriorityLevel(2), Weight(1.5), AnisotropicWeight(good)));
  if(ask(bad, "changed weight", [&] { rc.weight() = w; }))
    VT_CHECK(rc.weight().value() == w, "N02-good", "weight");
  else
    VT_CHECK(rc.weight().value() == 1.5, "N02-changed", "weight");
  if(ask(bad, "changed priority", [&] { rc.priorityLevel() = p; }))
    VT_CHECK(rc.priorityLevel().value() == p, "N02-good", "priority");
  else
    VT_CHECK(rc.priorityLevel().value() == 2, "N02-changed", "priority");
  if(ask(bad, "changed anisotropic weight", [&] { rc.anisotropicWeight() = a; }))
    VT_CHECK(same(rc.anisotropicWeight().value(), a), "N02-good", "anisotropic weight");
  else
    VT_CHECK(same(rc.anisotropicWeight().value(), good), "N02-changed", "anisotropic weight");
}

/** A random equation on x and y */
utils::LinearProtoTaskEQ A_x(Rng & r, int m, const VariablePtr & x, const VariablePtr & y)
{
  MatrixXd A = r.mat(m, x->size()), B = r.mat(m, y->size());
  return A * x + B * y == r.vec(m);
}

void substitutions(Rng & r)
{
  using hint::Substitution;
  using hint::internal::DiagonalCalculator;
  using hint::internal::GenericCalculator;
  int n = r.i(2, 4), m = r.i(1, n);
  VariablePtr x = var(r, n), y = var(r, 3, "y"), z = var(r, 2, "z");
  auto eq = [&](int rows, std::vector<VariablePtr> v, Type t = Type::EQUAL) -> LinearConstraintPtr {
    std::vector<MatrixXd> A;
    for(auto & q : v)
      A.push_back(r.mat(rows, q->size()));
    std::vector<MatrixConstRef> R(A.begin(), A.end());
    if(t == Type::DOUBLE_SIDED)
      return std::make_shared<CLC>(R, v, VectorXd(-r.vec(rows, 0, 1)), r.vec(rows, 0, 1), RHS::AS_GIVEN);
    return std::make_shared<CLC>(R, v, r.vec(rows), t, RHS::AS_GIVEN);
  };
  auto c = eq(m, {x, y});
  auto d = eq(1, {y, z});
  bool bad = r.b();
  switch(r.i(0, 6))
  {
    case 0: {
      Type t = bad ? r.pick(std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED}) : Type::EQUAL;
      auto e = eq(m, {x, y}, t);
      ask(bad, "substitution from inequality", [&] { Substitution(e, x); });
      break;
    }
    case 1:
      ask(bad, "substitution of an absent variable", [&] { Substitution(c, bad ? z : x); });
      ask(bad, "substitution of an absent variable among others", [&] {
        Substitution(std::vector<LinearConstraintPtr>{c}, std::vector<VariablePtr>{x, bad ? z : y});
      });
      break;
    case 2: {
      auto a = x->subvariable(Space(n - 1), "a"), b = bad ? x->subvariable(Space(2), "b", Space(n - 2)) : x->subvariable(Space(1), "b", Space(n - 1));
      ask(bad, "substitution of intersecting variables", [&] {
        Substitution(std::vector<LinearConstraintPtr>{c}, std::vector<VariablePtr>{a, b});
      });
      break;
    }
    case 3:
      ask(bad, "substitution with a foreign constraint", [&] {
        auto e = bad ? d : eq(1, {x, z});
        Substitution(std::vector<LinearConstraintPtr>{eq(1, {x}), e}, x);
      });
      break;
    case 4: {
      int rows = bad ? n + r.i(1, 2) : r.i(1, n);
      ask(bad, "substitution with too many equations", [&] { Substitution(eq(rows, {x, y}), x); });
      int rank = bad ? m + r.i(1, 2) : r.i(1, m);
      ask(bad, "substitution with a rank larger than the number of equations", [&] { Substitution(c, x, rank); });
      break;
    }
    case 5: {
      // diagonal calculators
      using I = std::vector<Eigen::DenseIndex>;
      int f = bad ? -r.i(1, 3) : r.i(0, 3), s = r.i(1, 3);
      ask(bad, "first row", [&] { DiagonalCalculator(f, s); });
      ask(bad, "number of rows", [&] { DiagonalCalculator(0, bad ? -r.i(2, 4) : r.i(-1, 3)); });
      I nz, ze;
      for(int i = 0; i < n; ++i)
        (r.b() ? nz : ze).push_back(i);
      if(nz.empty())
        std::swap(nz, ze);
      r.shuffle(nz);
      r.shuffle(ze);
      I nz1 = nz, ze1 = ze;
      if(bad)
        switch(r.i(0, 4))
        {
          case 0:
            nz1.push_back(-r.i(1, 3));
            break;
          case 1:
            ze1.push_back(-r.i(1, 3));
            break;
          case 2:
            nz1.push_back(r.pick(nz));
            break;
          case 3:
            ze1.push_back(r.pick(nz));
            break;
          default:
            ze1.push_back(ze.empty() ? nz.front() : r.pick(ze));
        }
      ask(bad, "rows of a diagonal", [&] { DiagonalCalculator(nz1, ze1); });
      ask(true, "no rows", [&] { DiagonalCalculator(I{}, ze); });
      // used for another system
      int rank = static_cast<int>(nz.size());
      MatrixXd D = MatrixXd::Zero(n, n);
      for(auto i : nz)
        D(i, i) = r.d(0.5, 2);
      LinearConstraintPtr dc = std::make_shared<CLC>(D, x, r.vec(n), Type::EQUAL);
      ask(bad, "rank of a diagonal", [&] { Substitution(dc, x, bad ? other(r, rank, 1) : rank, DiagonalCalculator(nz, ze)); });
      if(bad)
      {
        I far = nz;
        far.back() = n + r.i(0, 2);
        ask(true, "rows beyond a diagonal", [&] { Substitution(dc, x, rank, DiagonalCalculator(far, ze)); });
        I zfar = ze;
        zfar.push_back(n + r.i(0, 2));
        ask(true, "zero rows beyond a diagonal", [&] { Substitution(dc, x, rank, DiagonalCalculator(nz, zfar)); });
      }
      int first = r.i(0, n - 1), size = r.i(1, n - first);
      LinearConstraintPtr rc = std::make_shared<CLC>(r.mat(size, n), x, r.vec(size), Type::EQUAL);
      if(bad)
      {
        int sz = r.i(1, n), ft = n - sz + r.i(1, 3);
        LinearConstraintPtr bc = std::make_shared<CLC>(r.mat(sz, n), x, r.vec(sz), Type::EQUAL);
        ask(true, "range beyond a diagonal", [&] { Substitution(bc, x, sz, DiagonalCalculator(ft, sz)); });
      }
      else
        ask(false, "range of a diagonal", [&] { Substitution(rc, x, size, DiagonalCalculator(first, size)); });
      ask(true, "diagonal calculator for several variables", [&] {
        Substitution(std::vector<LinearConstraintPtr>{eq(2, {x, y})}, std::vector<VariablePtr>{x, y}, 2, DiagonalCalculator(0, 2));
      });
      break;
    }
    default: {
      // problems
      LinearizedControlProblem pb;
      auto t = pb.add(A_x(r, m, x, y), task_dynamics::None());
      auto o = pb.add(A_x(r, 1, x, y), task_dynamics::None());
      auto e = pb.constraint(*t);
      auto g = pb.constraint(*o);
      if(bad)
        pb.add(Substitution(std::vector<LinearConstraintPtr>{e, g}, std::vector<VariablePtr>{x, y}));
      else
        pb.add(Substitution(e, x));
      ask(bad, "removal of the substitution for a constraint", [&] { pb.removeSubstitutionFor(*e); });
      VT_CHECK(pb.substitutions().substitutions().size() == (bad ? 1u : 0u), "N02-changed", "substitutions");
      ask(false, "removal of no substitution", [&] { pb.removeSubstitutionFor(*pb.constraint(*pb.add(A_x(r, 1, x, y), task_dynamics::None()))); });
    }
  }
}

void levels(Rng & r)
{
  using namespace scheme::internal;
  using VE = requirements::ViolationEvaluationType;
  bool general = r.b();
  int n = r.b(0.2) ? NoLimit : r.b(0.2) ? -r.i(2, 4) : r.i(0, 4);
  std::map<int, LevelAbilities> ab;
  std::map<int, std::pair<bool, std::set<VE>>> model;
  auto some = [&](int lvl) {
    bool ineq = r.b();
    std::vector<VE> v;
    for(auto t : {VE::L1, VE::L2, VE::LINF})
      if(r.b(0.6))
        v.push_back(t);
    ab.emplace(lvl, LevelAbilities(ineq, v));
    model[lvl] = {ineq, {v.begin(), v.end()}};
  };
  if(general)
    some(GeneralLevel);
  bool hole = false;
  for(int i = 0; i < n; ++i)
    if(r.b(0.85))
      some(i);
    else
      hole = true;
  bool scal = r.b();
  bool bad = (n < 0 && n != NoLimit) || (n >= 0 && !general && hole) || (n == NoLimit && !general);
  ask(bad, "abilities of a scheme", [&] { SchemeAbilities(n, ab, scal); });
  if(bad || n == 0)
    return;
  SchemeAbilities sa(n, ab, scal);
  VariablePtr x = var(r, 2);
  std::cout.setstate(std::ios::failbit);
  for(int it = 0; it < 4; ++it)
  {
    Type t = r.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN});
    ConstraintPtr c = std::make_shared<CLC>(r.mat(2, 2), x, r.vec(2), t);
    int p = r.i(0, 5);
    VE ve = r.pick(std::vector<VE>{VE::L1, VE::L2, VE::LINF});
    auto req = std::make_shared<requirements::SolvingRequirementsWithCallbacks>(
        requirements::SolvingRequirements(requirements::PriorityLevel(p), requirements::ViolationEvaluation(ve)));
    bool wrong = false;
    int lvl = p;
    if(n > 0 && p >= n)
    {
      if(scal)
        lvl = n - 1;
      else
        wrong = true;
    }
    if(!wrong)
    {
      auto i = model.find(lvl);
      if(i == model.end())
        i = model.find(GeneralLevel);
      wrong = (t != Type::EQUAL && !i->second.first) || !i->second.second.count(ve);
    }
    ask(wrong, "requirements for a scheme", [&] { sa.check(c, req, r.b()); });
  }
  std::cout.clear();
}

void properties(Rng & r)
{
  using MP = tvm::internal::MatrixProperties;
  auto s = static_cast<MP::Shape>(r.i(0, static_cast<int>(MP::ZERO)));
  auto p = static_cast<MP::Positiveness>(r.i(0, static_cast<int>(MP::NON_ZERO_INDEFINITE)));
  // contradictions in the definitions (a positive semidefinite matrix has eigenvalues >= 0, ...)
  bool zeroNot = s == MP::ZERO && (p == MP::POSITIVE_DEFINITE || p == MP::NEGATIVE_DEFINITE || p == MP::NON_ZERO_INDEFINITE);
  bool idNot = s == MP::IDENTITY && (p == MP::NEGATIVE_SEMIDEFINITE || p == MP::NEGATIVE_DEFINITE);
  bool minusNot = s == MP::MINUS_IDENTITY && (p == MP::POSITIVE_SEMIDEFINITE || p == MP::POSITIVE_DEFINITE);
  bool open = (s == MP::IDENTITY || s == MP::MINUS_IDENTITY) && (p == MP::INDEFINITE || p == MP::NON_ZERO_INDEFINITE);
  if(open)
    return; // unspecified
  bool bad = zeroNot || idNot || minusNot;
  ask(bad, "shape and positiveness", [&] { MP q(s, p); });
  bool cst = s == MP::IDENTITY || s == MP::MINUS_IDENTITY || s == MP::ZERO;
  ask(cst, "not constant", [&] { MP q(s, MP::Constness(false)); });
  ask(false, "constant", [&] { MP q(MP::Constness(true), s); });
  bool inv = s == MP::IDENTITY || s == MP::MINUS_IDENTITY;
  ask(inv, "not invertible", [&] { MP q(s, MP::Invertibility(false)); });
  ask(s == MP::ZERO, "invertible", [&] { MP q(MP::Invertibility(true), s); });
  bool def = p == MP::POSITIVE_DEFINITE || p == MP::NEGATIVE_DEFINITE || p == MP::NON_ZERO_INDEFINITE;
  ask(def, "definite and not invertible", [&] { MP q(p, MP::Invertibility(false)); });
}

void updateless(Rng & r)
{
  Pool P(r, 3, 4);
  std::vector<PV> pv{P.whole(0)};
  int nv = r.i(1, 3);
  for(int i = 1; i < nv; ++i)
    pv.push_back(P.whole(i));
  VariablePtr foreign = var(r, 2, "foreign");
  auto f = std::make_shared<QF>(r, r.i(1, 3), pv, false);
  utils::UpdatelessFunction u(f);
  std::vector<VectorXd> v;
  int total = 0;
  for(auto & q : pv)
  {
    v.push_back(r.vec(q.p.n));
    total += q.p.n;
  }
  bool bad = r.b();
  VectorXd extra = r.vec(r.i(1, 3));
  int how = bad ? r.i(0, 4) : 5;
  if(how == 3)
  {
    auto & w = v[static_cast<size_t>(r.i(0, nv - 1))];
    w = r.vec(other(r, static_cast<int>(w.size())));
  }
  ask(bad, "updateless value", [&] {
    if(how == 0) // concatenation of another length
      u.value(r.vec(other(r, total)));
    else if(how == 1) // too many
    {
      if(nv == 1)
        u.value(v[0], extra);
      else if(nv == 2)
        u.value(v[0], v[1], extra);
      else
        u.value(v[0], v[1], v[2], extra);
    }
    else if(how == 4 && nv == 3) // too few
      u.value(v[0], v[1]);
    else if(how == 2 || how == 4) // not one of its variables
      u.value(*foreign, r.vec(2));
    else if(nv == 1)
      u.value(v[0]);
    else if(nv == 2)
      u.value(v[0], v[1]);
    else if(r.b())
      u.value(v[0], v[1], v[2]);
    else
      u.value(*pv[2].v, v[2], *pv[0].v, v[0], *pv[1].v, v[1]);
  });
  // velocities
  std::vector<VectorXd> d;
  for(auto & q : pv)
    d.push_back(r.vec(q.p.n));
  for(size_t i = 0; i < v.size(); ++i)
    v[i] = r.vec(pv[i].p.n);
  how = bad ? r.i(0, 3) : 4;
  if(how == 0)
  {
    auto & w = d[static_cast<size_t>(r.i(0, nv - 1))];
    w = r.vec(other(r, static_cast<int>(w.size())));
  }
  if(how == 1)
  {
    auto & w = v[static_cast<size_t>(r.i(0, nv - 1))];
    w = r.vec(other(r, static_cast<int>(w.size())));
  }
  ask(bad, "updateless velocity", [&] {
    if(how == 2)
      u.velocity(r.b() ? r.vec(other(r, total)) : r.vec(total), r.vec(other(r, total)));
    else if(how == 3)
      u.velocity(*foreign, r.vec(2), r.vec(2));
    else if(nv == 1)
      u.velocity(v[0], d[0]);
    else if(nv == 2)
      u.velocity(v[0], d[0], v[1], d[1]);
    else
      u.velocity(v[0], d[0], v[1], d[1], v[2], d[2]);
  });
}
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
    std::srand(static_cast<unsigned>(r.next()));
    static const std::vector<std::pair<const char *, void (*)(Rng &)>> all{
        {"variables", variables}, {"vectors", vectors}, {"functions", functions}, {"constraints", constraints},
        {"tasks", tasks}, {"dynamics", dynamics}, {"dynamics", dynamics}, {"requirements", requirementsCase},
        {"substitutions", substitutions}, {"substitutions", substitutions}, {"levels", levels},
        {"properties", properties}, {"updateless", updateless}};
    auto & c = r.pick(all);
    op(c.first);
    count(c.first);
    nontrivial();
    c.second(r);
  });
}

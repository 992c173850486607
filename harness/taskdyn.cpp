// Task dynamics and tasks.
//  -DFOCUS=1 T01 task dynamics values;  2 T02 closed-loop guarantees;  3 F03 linearized tasks;  4 A02 tasks and proto-tasks
#include "mp.h"
#include "qf.h"
#include <tvm/Task.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/ProtoTask.h>
#include <tvm/utils/graph.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using namespace tvm::task_dynamics;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using function::BasicLinearFunction;
using function::IdentityFunction;
using constraint::Type;
using TDI = tvm::task_dynamics::abstract::TaskDynamicsImpl;
using TDB = tvm::task_dynamics::abstract::TaskDynamics;

namespace
{
const char * TN[] = {"EQ", "GT", "LT", "DS"};

/** State of the function at the time of evaluation. */
struct In
{
  VectorXd f, df, rhs;
  Type t;
};
using Model = std::function<VectorXd(const In &)>;

struct Spec
{
  std::string name;
  std::shared_ptr<TDB> td;
  Order order = Order::One;
  bool needLinear = false;     // None
  bool ineqOnly = false;       // velocity damper
  bool needVelocity = false;   // velocity used although order one
  bool exactForOne = true;
  std::function<Model()> mk;   // fresh (possibly stateful) model, one for each impl
  // change the parameters of an impl and of the model
  std::function<void(Rng &, TDI &)> change;
  // sources to move between updates
  std::vector<std::shared_ptr<Provider>> ff;
  std::vector<PV> refVars;
};

// gains -------------------------------------------------------------------------------------------------------------
struct G
{
  int kind; // 0 scalar, 1 vector, 2 matrix
  double s;
  VectorXd v;
  MatrixXd m;
  VectorXd operator*(const VectorXd & e) const
  {
    if(kind == 0)
      return s * e;
    if(kind == 1)
      return v.cwiseProduct(e);
    return m * e;
  }
};
G randGain(Rng & r, int n, int kind = -1)
{
  G g{kind < 0 ? r.i(0, 2) : kind, r.d(0.1, 3), r.vec(n, 0.1, 3), r.mat(n, n)};
  return g;
}
MatrixXd spd(Rng & r, int n)
{
  MatrixXd a = r.mat(n, n);
  return a * a.transpose() + 0.1 * MatrixXd::Identity(n, n);
}

/** Apply fn to the gain with its own type. */
template<typename F>
auto withGain(const G & g, F && fn)
{
  if(g.kind == 0)
    return fn(g.s);
  if(g.kind == 1)
    return fn(g.v);
  return fn(g.m);
}

/** Scale v as little as possible (s in [0,1]) to fit in the bounds. */
VectorXd clamp(const VectorXd & v, const VectorXd & lo, const VectorXd & hi)
{
  double s = 1;
  for(int i = 0; i < v.size(); ++i)
  {
    if(v[i] > hi[i])
      s = std::min(s, hi[i] / v[i]);
    if(v[i] < lo[i])
      s = std::min(s, lo[i] / v[i]);
  }
  return s * v;
}

/** Creates a composition of clamping/feed-forward around B(args...). */
template<class B, class... Args>
void compose(Rng & r, int n, Spec & s, int maxForm, Args... args)
{
  auto base = s.mk;
  int form = r.i(0, maxForm);
  auto prov = std::make_shared<Provider>(r.vec(n, -2, 2));
  double mx = r.d(0.05, 2), mn = -r.d(0.05, 2);
  if(r.b(0.1) && !std::is_same_v<B, VelocityDamper>)
    mx = 0;
  VectorXd vmx = r.vec(n, 0.05, 2), vmn = r.vec(n, -2, -0.05);
  struct P2
  {
    VectorXd lo, hi;
  };
  auto ones = [n](double d) { return VectorXd(VectorXd::Constant(n, d)); };
  auto clampM = [](std::function<Model()> in, VectorXd lo, VectorXd hi) {
    return [=]() -> Model {
      auto m = in();
      return [=](const In & i) { return clamp(m(i), lo, hi); };
    };
  };
  auto ffM = [](std::function<Model()> in, std::shared_ptr<Provider> p) {
    return [=]() -> Model {
      auto m = in();
      return [=](const In & i) { return VectorXd(m(i) + p->next); };
    };
  };
  using C = Clamped<B>;
  using F = FeedForward<B>;
  using CF = Clamped<FeedForward<B>>;
  auto V = Provider::Output::Value;
  s.name = vt::str(s.name, "/", form);
  switch(form)
  {
    case 0:
      s.td = std::make_shared<B>(args...);
      break;
    case 1:
      s.td = std::make_shared<C>(mx, args...);
      s.mk = clampM(base, ones(-mx), ones(mx));
      break;
    case 2:
      s.td = std::make_shared<C>(std::pair<double, double>(mn, mx), args...);
      s.mk = clampM(base, ones(mn), ones(mx));
      break;
    case 3:
      s.td = std::make_shared<C>(VectorConstRef(vmx), args...);
      s.mk = clampM(base, -vmx, vmx);
      break;
    case 4:
      s.td = std::make_shared<C>(std::pair<VectorConstRef, VectorConstRef>(vmn, vmx), args...);
      s.mk = clampM(base, vmn, vmx);
      break;
    case 5:
      s.td = std::make_shared<F>(prov, &Provider::value, V, args...);
      s.mk = ffM(base, prov);
      s.ff = {prov};
      break;
    case 6:
      s.td = std::make_shared<CF>(mx, prov, &Provider::value, V, args...);
      s.mk = clampM(ffM(base, prov), ones(-mx), ones(mx));
      s.ff = {prov};
      break;
    case 7:
      if constexpr(sizeof...(Args) <= 2 && !std::is_same_v<B, VelocityDamper>)
      {
        s.td = std::make_shared<FeedForward<C>>(prov, &Provider::value, V, mx, args...);
        s.mk = ffM(clampM(base, ones(-mx), ones(mx)), prov);
        s.ff = {prov};
        break;
      }
      [[fallthrough]];
    default:
      if constexpr(sizeof...(Args) <= 2)
      {
        s.td = std::make_shared<Clamped<C>>(mx, std::pair<double, double>(mn, 0.3), args...);
        s.mk = clampM(clampM(base, ones(mn), ones(0.3)), ones(-mx), ones(mx));
      }
      else
      {
        s.td = std::make_shared<B>(args...);
      }
      break;
  }
  if(form)
    count("compositions");
}

Spec makeSpec(Rng & r, int n, Pool & P, int which = -1)
{
  Spec s;
  if(which < 0)
    which = r.i(0, 9);
  switch(which)
  {
    case 0:
    case 1: {
      auto g = std::make_shared<G>(randGain(r, n));
      s.name = vt::str("P", g->kind);
      s.order = Order::One;
      s.mk = [g]() -> Model { return [g](const In & i) { return VectorXd(-(*g * (i.f - i.rhs))); }; };
      withGain(*g, [&](const auto & k) { compose<Proportional>(r, n, s, 8, k); });
      s.change = [g, n](Rng & q, TDI & t) {
        auto * p = dynamic_cast<Proportional::Impl *>(&t);
        VT_CHECK(p, "T01-type", "P");
        if(q.b(0.2) && n > 1)
        {
          VT_CHECK(throws([&] { p->gain(VectorXd(q.vec(n + 1))); }), "T01-gain-size", n);
          VT_CHECK(throws([&] { p->gain(MatrixXd(q.mat(n, n + 1))); }), "T01-gain-size", n);
          VT_CHECK(throws([&] { p->gain(MatrixXd(q.mat(n - 1, n))); }), "T01-gain-size", n);
          return;
        }
        if(q.b(0.2))
          return;
        *g = randGain(q, n);
        withGain(*g, [&](const auto & k) {
          p->gain(k);
          using T = std::decay_t<decltype(k)>;
              if constexpr(std::is_same_v<T, double>)
          {
            VT_CHECK(p->template gain<double>() == k && throws([&] { p->template gain<VectorXd>(); }), "T01-gain-get", k);
          }
          else
          {
            VT_CHECK(same(p->template gain<T>(), k) && throws([&] { p->template gain<double>(); }), "T01-gain-get", show(k));
          }
        });
      };
      break;
    }
    case 2:
    case 3: {
      auto kp = std::make_shared<G>(randGain(r, n));
      auto kv = std::make_shared<G>(randGain(r, n));
      s.order = Order::Two;
      s.mk = [kp, kv]() -> Model {
        return [kp, kv](const In & i) { return VectorXd(-(*kp * (i.f - i.rhs)) - (*kv * i.df)); };
      };
      auto crit = [n](Rng & q, G & p, G & v) {
        v = p;
        if(p.kind == 0)
          v.s = 2 * std::sqrt(p.s);
        else if(p.kind == 1)
          v.v = 2 * p.v.cwiseSqrt();
        else
        {
          p.m = spd(q, n);
          Eigen::SelfAdjointEigenSolver<MatrixXd> es(p.m);
          v.m = 2 * es.operatorSqrt();
        }
      };
      bool c = r.b(0.4);
      if(c)
        crit(r, *kp, *kv);
      s.name = vt::str("PD", kp->kind, kv->kind, c);
      if(c)
        withGain(*kp, [&](const auto & k) { compose<PD>(r, n, s, kp->kind == 2 ? 8 : 2, k); });
      else if(kp->kind == 0)
        withGain(*kv, [&](const auto & k) { compose<PD>(r, n, s, 8, kp->s, k); });
      else
        withGain(*kp, [&](const auto & k) {
          withGain(*kv, [&](const auto & k2) {
            s.td = std::make_shared<PD>(k, k2);
            if(r.b(0.3))
            {
              s.td = std::make_shared<Clamped<PD>>(0.5, k, k2);
              auto b = s.mk;
              s.mk = [b, n]() -> Model {
                auto m = b();
                return [m, n](const In & i) { return clamp(m(i), VectorXd::Constant(n, -0.5), VectorXd::Constant(n, 0.5)); };
              };
            }
          });
        });
      s.change = [kp, kv, n, crit](Rng & q, TDI & t) {
        auto * p = dynamic_cast<PD::Impl *>(&t);
        VT_CHECK(p, "T01-type", "PD");
        if(q.b(0.3))
        {
          VectorXd bad = q.vec(n + 1);
          MatrixXd badm = q.mat(n, n + 1), badm2 = q.mat(n + 1, n);
          int w = q.i(0, 7);
          bool th = throws([&] {
            switch(w)
            {
              case 0: p->gains(1., bad); break;
              case 1: p->gains(1., badm); break;
              case 2: p->gains(bad, 2.); break;
              case 3: p->gains(badm2, 2.); break;
              case 4: p->gains(VectorXd(q.vec(n)), bad); break;
              case 5: p->gains(MatrixXd(q.mat(n, n)), badm2); break;
              case 6: p->gains(bad); break;
              default: p->gains(badm2); break;
            }
          });
          VT_CHECK(th, "T01-gain-size", "PD gains ", w);
          return; // and nothing changed, which the next evaluation checks
        }
        if(q.b(0.2))
          return;
        *kp = randGain(q, n);
        *kv = randGain(q, n);
        if(q.b(0.4))
        {
          crit(q, *kp, *kv);
          withGain(*kp, [&](const auto & k) { p->gains(k); });
        }
        else
          withGain(*kp, [&](const auto & k) { withGain(*kv, [&](const auto & k2) { p->gains(k, k2); }); });
      };
      break;
    }
    case 4: {
      double dt = r.b(0.2) ? r.d(1, 3) : r.d(0.01, 1);
      s.order = r.b() ? Order::One : Order::Two;
      bool two = s.order == Order::Two;
      s.name = vt::str("OSZ", int(s.order));
      s.mk = [dt, two]() -> Model {
        return [dt, two](const In & i) {
          if(two) // f + dt df + dt^2/2 v = rhs
            return VectorXd((i.rhs - i.f - dt * i.df) * (2 / (dt * dt)));
          return VectorXd((i.rhs - i.f) / dt);
        };
      };
      compose<OneStepToZero>(r, n, s, 8, s.order, dt);
      break;
    }
    case 5: {
      auto v = P.any(0, 0.3);
      MatrixXd A = r.mat(n, v.p.n);
      VectorXd b = r.vec(n);
      auto ref = std::make_shared<BasicLinearFunction>(A, v.v, b);
      s.refVars = {v};
      s.mk = [A, b, v]() -> Model { return [A, b, v](const In &) { return VectorXd(A * v.v->value() + b); }; };
      int k = r.i(0, 2);
      s.name = vt::str("Ref", k);
      s.order = k == 1 ? Order::One : k == 2 ? Order::Two : r.b() ? Order::One : Order::Two;
      FunctionPtr rp = ref;
      if(k == 0)
        compose<Reference>(r, n, s, 5, s.order, rp);
      else if(k == 1)
        s.td = std::make_shared<ReferenceVelocity>(ref);
      else
        s.td = std::make_shared<ReferenceAcceleration>(ref);
      break;
    }
    case 6: {
      s.order = Order::Zero;
      s.name = "Const";
      s.mk = []() -> Model { return [](const In & i) { return i.rhs; }; };
      s.td = std::make_shared<Constant>();
      break;
    }
    case 7: {
      s.order = Order::Zero;
      s.name = "None";
      s.needLinear = true;
      s.mk = nullptr;
      s.td = std::make_shared<None>();
      break;
    }
    default: {
      s.ineqOnly = true;
      bool two = r.b(), aut = r.b(0.4), aniso = r.b();
      double dt = r.d(0.01, 0.5), big = r.b() ? constant::big_number : r.d(10, 100);
      VectorXd ds = r.vec(n, 0, 0.5), di = ds + r.vec(n, 0.1, 1), xsi = r.vec(n, 0.1, 2), off = r.vec(n, 0, 1);
      if(r.b(0.2))
        ds.setZero();
      if(!aniso)
        for(auto * p : {&ds, &di, &xsi, &off})
          p->setConstant((*p)[0]);
      if(!aniso)
        di.setConstant(ds[0] + r.d(0.1, 1));
      if(aut)
        xsi.setZero();
      bool defBig = big == constant::big_number, noOff = r.b(0.3);
      if(noOff)
        off.setZero();
      s.order = two ? Order::Two : Order::One;
      s.needVelocity = two || aut;
      s.name = vt::str("VD", two, aut, aniso);
      s.mk = [=]() -> Model {
        auto xs = std::make_shared<VectorXd>(xsi);
        auto act = std::make_shared<std::vector<int>>(static_cast<size_t>(n), 0);
        return [=](const In & i) {
          VectorXd res(n);
          for(int k = 0; k < n; ++k)
          {
            double sg = i.t == Type::LOWER_THAN ? -1 : 1;
            double d = sg * (i.f[k] - i.rhs[k]), v = sg * i.df[k];
            int & a = (*act)[static_cast<size_t>(k)];
            if(d <= di[k] && !a && aut)
              (*xs)[k] = -(di[k] - ds[k]) / (d - ds[k]) * v + off[k];
            a = d <= di[k];
            double o = -(*xs)[k] * (d - ds[k]) / (di[k] - ds[k]); // lower bound on the velocity of d
            if(two)
              o = (o - v) / dt;
            if(d > di[k])
              o = -big;
            res[k] = sg * o;
          }
          return res;
        };
      };
      VelocityDamper::Config c(di[0], ds[0], aut ? 0 : xsi[0], off[0]);
      VelocityDamper::AnisotropicConfig ac(di, ds, xsi, off);
      if(noOff)
      {
        c = VelocityDamper::Config(di[0], ds[0], aut ? 0 : xsi[0]);
        ac = VelocityDamper::AnisotropicConfig(di, ds, xsi);
      }
      if(!aniso)
      {
        if(two)
          compose<VelocityDamper>(r, n, s, defBig ? 0 : 6, dt, c, big);
        else
          compose<VelocityDamper>(r, n, s, defBig ? 0 : 6, c, big);
      }
      else
      {
        if(two)
          compose<VelocityDamper>(r, n, s, 1, dt, ac, big);
        else if(defBig)
          s.td = std::make_shared<VelocityDamper>(ac);
        else
          compose<VelocityDamper>(r, n, s, 1, ac, big);
      }
      break;
    }
  }
  return s;
}

struct Fn
{
  std::shared_ptr<QF> q;
  std::shared_ptr<BasicLinearFunction> l;
  FunctionPtr f;
  std::vector<PV> vars;
  std::vector<MatrixXd> A; // linear
  VectorXd b;
  int m;
  VectorXd val() const
  {
    if(q)
      return q->val();
    VectorXd r = b;
    for(size_t k = 0; k < vars.size(); ++k)
      r += A[k] * vars[k].v->value();
    return r;
  }
  VectorXd vel() const
  {
    if(q)
      return q->vel();
    VectorXd r = VectorXd::Zero(m);
    for(size_t k = 0; k < vars.size(); ++k)
      r += A[k] * dot(vars[k].v)->value();
    return r;
  }
  VectorXd nacc() const { return q ? q->nacc() : VectorXd::Zero(m); }
  MatrixXd jac(size_t k) const { return q ? q->jac(k) : A[k]; }
};

Fn makeFn(Rng & r, Pool & P, int m, bool linear, int maxOrder = 0)
{
  Fn F;
  F.m = m;
  F.vars = pickVars(r, P, 3, maxOrder, 0.4);
  if(!linear)
  {
    F.q = std::make_shared<QF>(r, m, F.vars);
    F.f = F.q;
  }
  else
  {
    std::vector<VariablePtr> v;
    std::vector<MatrixConstRef> refs;
    for(auto & x : F.vars)
    {
      F.A.push_back(r.mat(m, x.p.n));
      v.push_back(x.v);
    }
    for(auto & a : F.A)
      refs.emplace_back(a);
    F.b = r.vec(m);
    F.l = std::make_shared<BasicLinearFunction>(refs, v, F.b);
    F.f = F.l;
  }
  return F;
}

void moveAll(Rng & r, Pool & P, Spec & s, Fn & F)
{
  (void)s;
  for(auto & v : P.base)
    for(int o = 0; o <= 2; ++o)
      (o ? dot(v, o) : v)->value(r.vec(v->size()));
  for(auto & p : s.ff)
    p->next = r.vec(static_cast<int>(p->next.size()), -2, 2);
  // derivatives of the functions' variables
  for(auto & x : F.vars)
    for(int o = 1; o <= 2; ++o)
      dot(x.v, o)->value(r.vec(x.p.n));
}

Type randType(Rng & r, const Spec & s)
{
  Type t = static_cast<Type>(r.i(0, 2));
  if(s.ineqOnly && t == Type::EQUAL)
    t = r.b() ? Type::LOWER_THAN : Type::GREATER_THAN;
  return t;
}

// ---------------------------------------------------------------------------------------------------------------- T01
void caseTD(Rng & r)
{
  Pool P(r, r.i(1, 3), 3);
  int m = r.i(1, 4);
  auto s = makeSpec(r, m, P);
  Fn F = makeFn(r, P, m, s.needLinear || r.b(0.3));
  if(s.needLinear)
    s.mk = [&F]() -> Model { return [&F](const In & i) { return VectorXd(i.rhs - F.b); }; };
  VT_CHECK(s.td->order() == s.order, "T01-order", s.name);
  int nImpl = r.i(1, 2);
  struct One
  {
    std::shared_ptr<TDI> t;
    Model model;
    VectorXd rhs;
    Type type;
    std::unique_ptr<graph::CallGraph> g;
  };
  std::vector<One> impls;
  for(int k = 0; k < nImpl; ++k)
  {
    One o;
    o.rhs = r.vec(m);
    o.type = randType(r, s);
    o.t = s.td->impl(F.f, o.type, o.rhs);
    o.model = s.mk();
    VT_CHECK(o.t->order() == s.order, "T01-impl-order", s.name);
    o.g = utils::generateUpdateGraph(o.t, TDI::Output::Value);
    impls.push_back(std::move(o));
  }
  op(s.name, " m", m, " ", F.q ? "quad" : "lin");
  int steps = r.i(3, 10);
  for(int k = 0; k < steps; ++k)
  {
    moveAll(r, P, s, F);
    if(F.q)
      F.q->poison();
    // the parameters belong to each impl (change() moves a model shared by all, so only with a single impl)
    if(s.change && nImpl == 1 && r.b(0.4))
    {
      op("change");
      s.change(r, *impls[0].t);
      count("parameter_changes");
    }
    for(auto & o : impls)
    {
      o.g->execute();
      In in{F.val(), F.vel(), o.rhs, o.type};
      VectorXd want = o.model(in);
      VT_CHECK(o.t->value().size() == m && close(o.t->value(), want), "T01-value", s.name, " ", TN[int(o.type)], " got ",
               show(o.t->value()), " want ", show(want));
      count("values_checked");
    }
  }
  // ill-formed uses
  VT_CHECK(throws([&] { s.td->impl(F.f, Type::EQUAL, r.vec(m + 1)); }), "T01-rhs-size", s.name);
  int w = r.i(0, 15);
  auto bad = [&](std::shared_ptr<TDB> t) { return throws([&] { t->impl(F.f, Type::GREATER_THAN, r.vec(m)); }); };
  VectorXd v1 = r.vec(m + 1, 0.1, 1);
  VectorXd vm = r.vec(m, 0.1, 1);
  bool th = true;
  switch(w)
  {
    case 0: th = bad(std::make_shared<Proportional>(v1)); break;
    case 1: th = bad(std::make_shared<Proportional>(MatrixXd(r.mat(m, m + 1)))); break;
    case 2: th = bad(std::make_shared<Proportional>(MatrixXd(r.mat(m + 1, m)))); break;
    case 3: th = bad(std::make_shared<PD>(v1, 1.)); break;
    case 4: th = bad(std::make_shared<PD>(1., MatrixXd(r.mat(m, m + 1)))); break;
    case 5: th = bad(std::make_shared<Clamped<Proportional>>(VectorConstRef(v1), 1.)); break;
    case 6: th = throws([&] { Clamped<Proportional>(std::pair<double, double>(0.1, 1), 1.); }) && throws([&] { Clamped<Proportional>(std::pair<double, double>(-1, -0.1), 1.); }); break;
    case 7: th = throws([&] { Clamped<Proportional>(std::pair<VectorConstRef, VectorConstRef>(vm, vm), 1.); }); break;
    case 8: th = throws([&] { Clamped<Proportional>(std::pair<VectorConstRef, VectorConstRef>(VectorXd(-vm), v1), 1.); }); break;
    case 9: th = throws([&] { OneStepToZero(Order::Zero, 0.1); }) && throws([&] { OneStepToZero(Order::One, 0); }) && throws([&] { OneStepToZero(Order::Two, -0.1); }); break;
    case 10: th = bad(std::make_shared<Reference>(Order::One, FunctionPtr())); break;
    case 11: th = throws([&] { VelocityDamper::Config(0.1, 0.1, 1); }) && throws([&] { VelocityDamper::Config(0.1, -0.1, 1); }) && throws([&] { VelocityDamper::Config(0.2, 0.1, -1); }) && throws([&] { VelocityDamper::Config(0.2, 0.1, 0, -1); }); break;
    case 12: th = throws([&] { VelocityDamper(0., VelocityDamper::Config(0.2, 0.1, 1)); }) && throws([&] { VelocityDamper(VelocityDamper::Config(0.2, 0.1, 1), 0.); }) && (F.l || bad(std::make_shared<None>())); break;
    case 13:
    case 14: { // one bad element among the parameters of each dimension
      int n = r.i(1, 4), i = r.i(0, n - 1), k = r.i(0, n > 1 ? 5 : 4);
      VectorXd ds = r.vec(n, 0.05, 0.3), di = ds + r.vec(n, 0.1, 0.5), xsi = r.vec(n, 0.5, 2), off = r.vec(n, 0, 0.5);
      using C = VelocityDamper::AnisotropicConfig;
      VT_CHECK(!throws([&] { C c(di, ds, xsi, VectorConstRef(off)); }), "T01-well-formed", "configuration refused");
      switch(k)
      {
        case 0: di[i] = ds[i] - (r.b() ? 0 : 0.01); break;
        case 1: ds[i] = -0.01; break;
        case 2: xsi[i] = -0.1; break;
        case 3: off[i] = -0.1; break;
        case 4: (r.b() ? ds : r.b() ? xsi : off) = r.vec(n + 1, 0.01, 0.04); break;
        default: xsi[i] = 0;
      }
      th = throws([&] { C c(di, ds, xsi, VectorConstRef(off)); });
      w = 100 + k;
      break;
    }
    default: th = bad(std::make_shared<FeedForward<Proportional>>(std::make_shared<Provider>(v1), &Provider::value, Provider::Output::Value, 1.)); break;
  }
  VT_CHECK(th, "T01-ill-formed", "use ", w, " accepted");
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- T02
void caseLoop(Rng & r)
{
  int n = r.i(1, 4);
  VariablePtr x = Space(n).createVariable("x");
  auto dx = dot(x), ddx = dot(x, 2);
  x->value(r.vec(n));
  dx->value(r.vec(n));
  auto f = std::make_shared<IdentityFunction>(x);
  int k = r.i(0, 4);
  double dt = r.d(0.01, 0.2);
  VectorXd rhs = r.vec(n);
  op("loop ", k, " n", n);
  if(k <= 1) // velocity damper: the safety distance is never crossed whatever the commands compatible with the bound
  {
    bool two = k == 1, aniso = r.b();
    VectorXd ds = r.vec(n, 0, 0.3), di = ds + r.vec(n, 0.1, 0.5);
    if(!aniso)
    {
      ds.setConstant(ds[0]);
      di.setConstant(ds[0] + 0.3);
    }
    VectorXd xsi(n);
    double fr = r.d(0.1, 1);
    for(int i = 0; i < n; ++i)
      xsi[i] = fr * (di[i] - ds[i]) / dt;
    if(!aniso)
      xsi.setConstant(xsi.minCoeff());
    int side = r.i(0, 2); // GT, LT, DS
    VectorXd gap = 2 * di + r.vec(n, 0.1, 1);
    VectorXd lo = rhs, hi = rhs + gap;
    std::shared_ptr<VelocityDamper> td;
    if(aniso)
    {
      VelocityDamper::AnisotropicConfig c(di, ds, xsi);
      td = two ? std::make_shared<VelocityDamper>(dt, c) : std::make_shared<VelocityDamper>(c);
    }
    else
    {
      VelocityDamper::Config c(di[0], ds[0], xsi[0]);
      td = two ? std::make_shared<VelocityDamper>(dt, c) : std::make_shared<VelocityDamper>(c);
    }
    std::shared_ptr<Task> t;
    if(side == 0)
      t = std::make_shared<Task>(f, Type::GREATER_THAN, *td, lo);
    else if(side == 1)
      t = std::make_shared<Task>(f, Type::LOWER_THAN, *td, hi);
    else
      t = std::make_shared<Task>(f, Type::DOUBLE_SIDED, *td, lo, hi);
    op(two, aniso, side, " ", int(fr * 5), " ", int(dt * 50));
    // admissible start
    VectorXd p(n), v = VectorXd::Zero(n);
    for(int i = 0; i < n; ++i)
      p[i] = r.d(lo[i] + ds[i], hi[i] - ds[i]);
    auto ltc = std::make_shared<constraint::internal::LinearizedTaskConstraint>(*t);
    using O = constraint::abstract::Constraint::Output;
    auto ltb = std::static_pointer_cast<constraint::abstract::Constraint>(ltc);
    auto g = side == 0 ? utils::generateUpdateGraph(ltb, O::L)
                       : side == 1 ? utils::generateUpdateGraph(ltb, O::U) : utils::generateUpdateGraph(ltb, O::L, O::U);
    for(int it = 0; it < 60; ++it)
    {
      x->value(p);
      dx->value(v);
      g->execute();
      for(int i = 0; i < n; ++i)
      {
        // adversary: extreme or random velocity within the bounds, of norm at most xsi
        double a = -xsi[i], b = xsi[i];
        double L = side != 1 ? ltc->l()[i] : -1e100, U = side != 0 ? ltc->u()[i] : 1e100;
        if(two)
        {
          L = v[i] + dt * L;
          U = v[i] + dt * U;
        }
        VT_CHECK(L <= U + 1e-9, "T02-damper-conflict", "bounds ", L, " ", U);
        a = std::max(a, L);
        b = std::min(b, U);
        VT_CHECK(a <= b + 1e-9, "T02-damper-empty", a, " ", b);
        int w = r.i(0, 2);
        v[i] = w == 0 ? a : w == 1 ? b : r.d(a, b);
        p[i] += dt * v[i];
        if(side != 1)
          VT_CHECK(p[i] >= lo[i] + ds[i] - 1e-9, "T02-damper-crossed", "lower by ", lo[i] + ds[i] - p[i], " step ", it);
        if(side != 0)
          VT_CHECK(p[i] <= hi[i] - ds[i] + 1e-9, "T02-damper-crossed", "upper by ", p[i] - hi[i] + ds[i], " step ", it);
        if(side == 2 || (side == 0 && p[i] < lo[i] + di[i]) || (side == 1 && p[i] > hi[i] - di[i]))
          count("damped_steps");
      }
      // keep a one-sided adversary near the bound
      for(int i = 0; i < n; ++i)
      {
        if(side == 0 && p[i] > lo[i] + 2 * di[i])
          p[i] = lo[i] + di[i];
        if(side == 1 && p[i] < hi[i] - 2 * di[i])
          p[i] = hi[i] - di[i];
      }
    }
  }
  else if(k == 2) // one step to zero
  {
    bool two = r.b();
    op(two, int(dt * 50));
    OneStepToZero td(two ? Order::Two : Order::One, dt);
    std::shared_ptr<TDI> t = td.impl(f, Type::EQUAL, rhs);
    auto g = utils::generateUpdateGraph(t, TDI::Output::Value);
    g->execute();
    VectorXd p = x->value(), v = dx->value(), a = t->value();
    p += two ? VectorXd(dt * v + dt * dt / 2 * a) : VectorXd(dt * a);
    VT_CHECK(close(p, rhs), "T02-one-step", show(p), " ", show(rhs));
  }
  else if(k == 3) // convergence of P and critically damped PD, whatever the kind of gain
  {
    int kind = r.i(0, 2);
    G kp{kind, r.d(0.5, 4), r.vec(n, 0.5, 4), spd(r, n)};
    kp.m += 0.4 * MatrixXd::Identity(n, n);
    bool late = r.b();
    op(kind, late, " ", int(kp.s * 4));
    if(r.b())
    {
      std::shared_ptr<TDI> t;
      withGain(kp, [&](const auto & g) {
        if(late)
        {
          t = Proportional(1.).impl(f, Type::EQUAL, rhs);
          dynamic_cast<Proportional::Impl &>(*t).gain(g);
        }
        else
          t = Proportional(g).impl(f, Type::EQUAL, rhs);
      });
      auto g = utils::generateUpdateGraph(t, TDI::Output::Value);
      double lmax = kind == 0 ? kp.s : kind == 1 ? kp.v.maxCoeff() : kp.m.norm();
      double h = std::min(dt, 0.9 / lmax);
      double e = (x->value() - rhs).norm();
      for(int it = 0; it < 50; ++it)
      {
        g->execute();
        x->value(x->value() + h * t->value());
        double e2 = (x->value() - rhs).norm();
        VT_CHECK(e2 <= e * (1 - 0.3 * h) + 1e-12, "T02-p-decrease", e, " -> ", e2);
        e = e2;
      }
    }
    else
    {
      std::shared_ptr<TDI> t;
      withGain(kp, [&](const auto & g) {
        if(late)
        {
          t = PD(1., 2.).impl(f, Type::EQUAL, rhs);
          dynamic_cast<PD::Impl &>(*t).gains(g);
        }
        else
          t = PD(g).impl(f, Type::EQUAL, rhs);
      });
      auto g = utils::generateUpdateGraph(t, TDI::Output::Value);
      // identify the linear dynamics: value = -Kp e - Kv de
      MatrixXd Kp(n, n), Kv(n, n);
      for(int i = 0; i < n; ++i)
      {
        x->value(rhs + VectorXd::Unit(n, i));
        dx->value(VectorXd::Zero(n));
        g->execute();
        Kp.col(i) = -t->value();
        x->value(rhs);
        dx->value(VectorXd::Unit(n, i));
        g->execute();
        Kv.col(i) = -t->value();
      }
      MatrixXd want = kind == 0 ? MatrixXd(kp.s * MatrixXd::Identity(n, n)) : kind == 1 ? MatrixXd(kp.v.asDiagonal()) : kp.m;
      VT_CHECK(close(Kp, want, 1e-8), "T02-pd-kp", show(Kp), " ", show(want));
      VT_CHECK(close(Kv * Kv, 4 * want, 1e-7), "T02-critical", "kv^2 ", show(Kv * Kv), " 4kp ", show(4 * want));
    }
  }
  else // clamped
  {
    Pool P(r, 2, 3);
    auto s = makeSpec(r, n, P, r.i(0, 3));
    VectorXd mx = r.vec(n, 0, 1), mn = r.vec(n, -1, 0);
    bool scalar = r.b();
    if(scalar)
    {
      mx.setConstant(mx[0]);
      mn.setConstant(mn[0]);
    }
    auto gp = randGain(r, n);
    std::shared_ptr<TDI> t, u;
    bool pd = r.b();
    op(scalar, pd, gp.kind, s.name);
    withGain(gp, [&](const auto & g) {
      auto mk = [&](auto tag, const auto &... a) {
        using T = typename decltype(tag)::type;
        u = T(a...).impl(f, Type::EQUAL, rhs);
        if(scalar)
          t = Clamped<T>(std::pair<double, double>(mn[0], mx[0]), a...).impl(f, Type::EQUAL, rhs);
        else
          t = Clamped<T>(std::pair<VectorConstRef, VectorConstRef>(mn, mx), a...).impl(f, Type::EQUAL, rhs);
      };
      struct TP { using type = Proportional; };
      struct TPD { using type = PD; };
      if(pd)
        mk(TPD{}, g, 0.7);
      else
        mk(TP{}, g);
    });
    auto g = utils::generateUpdateGraph(t, TDI::Output::Value);
    auto gu = utils::generateUpdateGraph(u, TDI::Output::Value);
    for(int it = 0; it < 10; ++it)
    {
      x->value(rhs + r.vec(n) * r.d(0, 2));
      dx->value(r.vec(n) * r.d(0, 1));
      g->execute();
      gu->execute();
      VectorXd v = t->value(), w = u->value();
      bool fits = true, tight = false;
      for(int i = 0; i < n; ++i)
      {
        VT_CHECK(v[i] <= mx[i] + 1e-9 && v[i] >= mn[i] - 1e-9, "T02-clamp-bound", v[i], " not in ", mn[i], " ", mx[i]);
        fits = fits && w[i] <= mx[i] && w[i] >= mn[i];
        if(w[i] != 0)
          tight = tight || std::abs(v[i] - (w[i] > 0 ? mx[i] : mn[i])) < 1e-9;
      }
      if(fits)
        VT_CHECK(close(v, w), "T02-clamp-unneeded", show(v), " ", show(w));
      else
      {
        VT_CHECK(tight, "T02-clamp-too-much", show(v), " from ", show(w));
        count("clamped_steps");
      }
      // same direction
      double al = w.squaredNorm() > 0 ? v.dot(w) / w.squaredNorm() : 0;
      VT_CHECK(al >= -1e-12 && al <= 1 + 1e-12 && close(v, al * w), "T02-clamp-direction", show(v), " ", show(w));
    }
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- F03
/** A user-defined function that is linear in some of its variables only. */
struct MixedFunction : function::abstract::Function
{
  MixedFunction(int m, const std::vector<PV> & x, const std::vector<bool> & lin) : function::abstract::Function(m)
  {
    for(size_t i = 0; i < x.size(); ++i)
      addVariable(x[i].v, lin[i]);
  }
};
void mixedLinearity(Rng & r)
{
  Pool P(r, r.i(2, 4), 3);
  int m = r.i(1, 3);
  auto x = pickVars(r, P, 4, 1, 0.4);
  std::vector<bool> lin;
  bool all = true;
  std::string w;
  for(auto & v : x)
  {
    lin.push_back(r.b(0.7));
    all = all && lin.back();
    w += vt::str(v.str(), lin.back() ? " lin " : " ");
  }
  op("mixed ", w);
  auto f = std::make_shared<MixedFunction>(m, x, lin);
  Type t = static_cast<Type>(r.i(1, 2));
  Task task(f, t, Constant(), VectorXd(r.vec(m)));
  bool refused = throws([&] { constraint::internal::LinearizedTaskConstraint c(task); });
  VT_CHECK(refused == !all, "F03-order-zero", refused ? "linear function refused" : "non linear function accepted");
  Task task1(f, t, Proportional(1.), VectorXd(r.vec(m)));
  VT_CHECK(!throws([&] { constraint::internal::LinearizedTaskConstraint c(task1); }), "F03-order-one", "refused");
  count("mixed_linearity");
  nontrivial();
}
void caseLTC(Rng & r)
{
  if(r.b(0.08))
  {
    mixedLinearity(r);
    return;
  }
  using LTC = constraint::internal::LinearizedTaskConstraint;
  using O = constraint::abstract::Constraint::Output;
  Pool P(r, r.i(1, 3), 3);
  int m = r.i(1, 4);
  auto s = makeSpec(r, m, P);
  bool lin = s.needLinear || r.b(0.3);
  Fn F = makeFn(r, P, m, lin, r.b(0.2) ? 1 : 0);
  if(s.needLinear)
    s.mk = [&F]() -> Model { return [&F](const In & i) { return VectorXd(i.rhs - F.b); }; };
  Type t = static_cast<Type>(r.i(0, 3));
  if(s.ineqOnly && t == Type::EQUAL)
    t = Type::DOUBLE_SIDED;
  VectorXd l = r.vec(m), u = r.vec(m);
  double ls = r.dyadic(1), us = r.dyadic(1);
  int form = r.i(0, 2);
  if(form == 1)
  {
    l.setConstant(ls);
    u.setConstant(us);
  }
  op(s.name, " ", TN[int(t)], " form", form, " ", lin ? "lin" : "quad");
  std::unique_ptr<Task> task;
  if(form == 2 && t != Type::DOUBLE_SIDED)
  {
    l.setZero();
    task = std::make_unique<Task>(F.f, t, *s.td);
  }
  else if(t == Type::DOUBLE_SIDED)
    task = form == 1 ? std::make_unique<Task>(F.f, t, *s.td, ls, us) : std::make_unique<Task>(F.f, t, *s.td, l, u);
  else
    task = form == 1 ? std::make_unique<Task>(F.f, t, *s.td, ls) : std::make_unique<Task>(F.f, t, *s.td, l);
  if(s.order == Order::Zero && !lin)
  {
    VT_CHECK(throws([&] { LTC c(*task); }), "F03-order-zero", "non linear function accepted");
    count("refused");
    return;
  }
  auto c = std::make_shared<LTC>(*task);
  auto cb = std::static_pointer_cast<constraint::abstract::Constraint>(c);
  VT_CHECK(c->type() == t && c->rhs() == constraint::RHS::AS_GIVEN && c->size() == m, "F03-type", TN[int(t)]);
  bool hasE = t == Type::EQUAL, hasL = t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED,
       hasU = t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED;
  VT_CHECK(c->isOutputEnabled(O::E) == hasE && c->isOutputEnabled(O::L) == hasL && c->isOutputEnabled(O::U) == hasU,
           "F03-outputs", TN[int(t)]);
  int ord = static_cast<int>(s.order);
  std::vector<VariablePtr> cv;
  VT_CHECK(c->variables().numberOfVariables() == static_cast<int>(F.vars.size()), "F03-variables", F.vars.size());
  for(size_t k = 0; k < F.vars.size(); ++k)
  {
    auto v = ord ? dot(F.vars[k].v, ord) : F.vars[k].v;
    cv.push_back(v);
    VT_CHECK(*c->variables()[static_cast<int>(k)] == *v && c->linearIn(*v), "F03-variable", F.vars[k].str());
  }
  // one graph per output, or a common one
  std::vector<std::unique_ptr<graph::CallGraph>> gs;
  using B = tvm::internal::FirstOrderProvider::Output;
  std::vector<constraint::abstract::Constraint::Output_> outs;
  if(hasE)
    outs.push_back(O::E);
  if(hasL)
    outs.push_back(O::L);
  if(hasU)
    outs.push_back(O::U);
  bool jac = r.b(0.8), val = r.b(0.5);
  for(auto o : outs)
    gs.push_back(utils::generateUpdateGraph(cb, o));
  if(jac)
    gs.push_back(utils::generateUpdateGraph(std::static_pointer_cast<tvm::internal::FirstOrderProvider>(c), B::Jacobian));
  if(val)
    gs.push_back(utils::generateUpdateGraph(std::static_pointer_cast<tvm::internal::FirstOrderProvider>(c), B::Value));
  auto m1 = s.mk(), m2 = s.mk();
  int steps = r.i(2, 6);
  for(int it = 0; it < steps; ++it)
  {
    moveAll(r, P, s, F);
    if(F.q)
      F.q->poison();
    r.shuffle(gs);
    for(auto & g : gs)
      g->execute();
    VectorXd g0 = ord == 2 ? F.nacc() : VectorXd::Zero(m);
    In in{F.val(), F.vel(), l, t == Type::DOUBLE_SIDED ? Type::GREATER_THAN : t};
    VectorXd w = m1(in) - g0;
    const VectorXd & got = hasE ? c->e() : hasL ? c->l() : c->u();
    VT_CHECK(close(got, w), "F03-bound", s.name, " ", TN[int(t)], " got ", show(got), " want ", show(w));
    if(t == Type::DOUBLE_SIDED)
    {
      In in2{F.val(), F.vel(), u, Type::LOWER_THAN};
      VectorXd w2 = m2(in2) - g0;
      VT_CHECK(close(c->u(), w2), "F03-bound-u", s.name, " got ", show(c->u()), " want ", show(w2));
    }
    VectorXd cval = VectorXd::Zero(m);
    for(size_t k = 0; k < F.vars.size(); ++k)
    {
      MatrixXd J = F.jac(k);
      cval += J * cv[k]->value();
      if(!jac && !val && !F.l)
        continue;
      auto Jc = c->jacobian(*cv[k]);
      VT_CHECK(close(Jc, J), "F03-jacobian", F.vars[k].str(), " got ", show(Jc), " want ", show(J));
      auto sv = P.subOf(F.vars[k]);
      auto sd = ord ? dot(sv.v, ord) : sv.v;
      auto Js = c->jacobian(*sd);
      VT_CHECK(close(Js, J.middleCols(sv.p.t - F.vars[k].p.t, sv.p.n)), "F03-jacobian-part", sv.str());
      if(Jc.cols() > 1 || Jc.rows() == 1)
        mp::checkSound(Jc.properties(), Jc, "jacobian", "F03");
    }
    if(val)
    {
      VT_CHECK(close(c->value(), cval), "F03-value", "got ", show(c->value()), " want ", show(cval));
      if(ord == 1)
        VT_CHECK(close(c->value(), F.vel()), "F03-value-velocity", show(c->value()));
    }
    count("bounds_checked");
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- A02
void checkTask(const Task & t, Type type, const VectorXd & l, const VectorXd & u, const std::string & w)
{
  VT_CHECK(t.type() == type, "A02-type", w, " got ", TN[int(t.type())], " want ", TN[int(type)]);
  VT_CHECK(close(t.taskDynamics()->value(), l), "A02-rhs", w, " got ", show(t.taskDynamics()->value()), " want ", show(l));
  auto td2 = t.secondBoundTaskDynamics();
  VT_CHECK((td2 != nullptr) == (type == Type::DOUBLE_SIDED), "A02-second-bound", w);
  if(td2)
    VT_CHECK(close(td2->value(), u), "A02-rhs2", w, " got ", show(td2->value()), " want ", show(u));
  t.taskDynamics<Constant>();
  VT_CHECK(throws([&] { t.taskDynamics<Proportional>(); }), "A02-cast", w);
  if(td2)
    t.secondBoundTaskDynamics<Constant>();
  else
    VT_CHECK(throws([&] { t.secondBoundTaskDynamics<Constant>(); }), "A02-cast-second", w);
}

/** All operators between an expression and right-hand sides. fval: check of the function of the task. */
template<typename E, typename L, typename U, typename Chk>
void operators(Rng & r, const E & e, const L & l, const U & u, const VectorXd & lv, const VectorXd & uv, Chk && chk)
{
  Constant td;
  int k = r.i(0, 7);
  op("operator ", k);
  switch(k)
  {
    case 0: { Task t(e == l, td); checkTask(t, Type::EQUAL, lv, uv, "e==l"); chk(t); break; }
    case 1: { Task t(l == e, td); checkTask(t, Type::EQUAL, lv, uv, "l==e"); chk(t); break; }
    case 2: { Task t(e >= l, td); checkTask(t, Type::GREATER_THAN, lv, uv, "e>=l"); chk(t); break; }
    case 3: { Task t(l <= e, td); checkTask(t, Type::GREATER_THAN, lv, uv, "l<=e"); chk(t); break; }
    case 4: { Task t(e <= u, td); checkTask(t, Type::LOWER_THAN, uv, uv, "e<=u"); chk(t); break; }
    case 5: { Task t(u >= e, td); checkTask(t, Type::LOWER_THAN, uv, uv, "u>=e"); chk(t); break; }
    case 6: { Task t(l <= e <= u, td); checkTask(t, Type::DOUBLE_SIDED, lv, uv, "l<=e<=u"); chk(t); break; }
    default: { Task t(u >= e >= l, td); checkTask(t, Type::DOUBLE_SIDED, lv, uv, "u>=e>=l"); chk(t); break; }
  }
}

template<typename E, typename Chk>
void anyRhs(Rng & r, const E & e, int m, Chk && chk)
{
  int k = r.i(0, 5);
  double ls = r.b(0.2) ? 0. : r.d(), us = r.b(0.2) ? 0. : r.d();
  VectorXd l = r.vec(m), u = r.vec(m);
  VectorXd lc = VectorXd::Constant(m, ls), uc = VectorXd::Constant(m, us);
  switch(k)
  {
    case 0: operators(r, e, ls, us, lc, uc, chk); break;
    case 1: operators(r, e, l, u, l, u, chk); break;
    case 2: operators(r, e, ls, u, lc, u, chk); break;
    case 3: operators(r, e, l, us, l, uc, chk); break;
    case 4: operators(r, e, l - u, 2 * u, l - u, 2 * u, chk); break;
    default: {
      VectorXd bad = r.vec(m + 1);
      int q = r.i(0, 4);
      bool th = throws([&] {
        Constant td;
        if(q == 0) Task(e == bad, td);
        else if(q == 1) Task(bad >= e, td);
        else if(q == 2) Task(bad <= e <= u, td);
        else if(q == 3) Task(l <= e <= bad, td);
        else Task(u >= e >= bad, td);
      });
      VT_CHECK(th, "A02-size", "ill-sized rhs accepted, form ", q);
      count("refused");
    }
  }
}

void caseProto(Rng & r)
{
  Pool P(r, r.i(1, 3), 3);
  int kind = r.i(0, 6);
  auto x = P.any(1, 0.4), y = P.any(1, 0.4);
  int m = r.i(1, 4);
  MatrixXd A = r.mat(m, x.p.n), B = r.mat(m, y.p.n);
  VectorXd b = r.vec(m);
  auto fval = [&](const VectorXd & want) {
    return [want](const Task & t) {
      auto g = utils::generateUpdateGraph(t.function(), tvm::internal::FirstOrderProvider::Output::Value);
      g->execute();
      VT_CHECK(close(t.function()->value(), want), "A02-function", "got ", show(t.function()->value()), " want ", show(want));
    };
  };
  op("kind ", kind, " ", x.str(), " ", y.str());
  VectorXd xv = x.v->value(), yv = y.v->value();
  switch(kind)
  {
    case 0: { VariablePtr v = x.v; anyRhs(r, v, x.p.n, fval(xv)); break; }
    case 1: anyRhs(r, A * x.v, m, fval(A * xv)); break;
    case 2: anyRhs(r, A * x.v + B * y.v + b, m, fval(A * xv + B * yv + b)); break;
    case 3: anyRhs(r, A * x.v - b, m, fval(A * xv - b)); break;
    case 4: { auto f = std::make_shared<BasicLinearFunction>(A, x.v, b); anyRhs(r, f, m, fval(A * xv + b)); break; }
    case 5: {
      auto f = std::make_shared<QF>(r, m, std::vector<PV>{x});
      auto chk = [&](const Task & t) { VT_CHECK(t.function() == f, "A02-same-function", ""); };
      anyRhs(r, f, m, chk);
      FunctionPtr fp = f;
      anyRhs(r, fp, m, chk);
      break;
    }
    default: {
      // explicit constructors
      auto f = std::make_shared<QF>(r, m, std::vector<PV>{x});
      Constant td;
      Type t = static_cast<Type>(r.i(0, 3));
      VectorXd l = r.vec(m), u = r.vec(m);
      double ls = r.d(), us = r.d();
      VectorXd lc = VectorXd::Constant(m, ls), uc = VectorXd::Constant(m, us), z = VectorXd::Zero(m);
      int c = r.i(0, 6);
      bool ds = t == Type::DOUBLE_SIDED;
      bool th = throws([&] {
        if(c == 0) { Task k(f, t, td); checkTask(k, t, z, z, "zero"); }
        if(c == 1) { Task k(f, t, td, ls); checkTask(k, t, lc, z, "double"); }
        if(c == 2) { Task k(f, t, td, l); checkTask(k, t, l, z, "vector"); }
        if(c == 3) { Task k(f, t, td, ls, us); checkTask(k, t, lc, uc, "2 doubles"); }
        if(c == 4) { Task k(f, t, td, l, u); checkTask(k, t, l, u, "2 vectors"); }
        if(c == 5) { Task k(f, t, td, VectorXd(r.vec(m + 1))); }
        if(c == 6) { Task k(f, t, td, l, VectorXd(r.vec(m + 1))); }
      });
      bool ok = (c <= 2 && !ds) || ((c == 3 || c == 4) && ds);
      VT_CHECK(th == !ok, "A02-constructor", "form ", c, " ", TN[int(t)], " threw ", th);
      // functions to a non-Euclidean space have no task
      struct NE : function::abstract::Function
      {
        NE() : Function(Space(Space::Type::SO3)) {}
      };
      auto ne = std::make_shared<NE>();
      VT_CHECK(throws([&] { Task k(ne, Type::EQUAL, Proportional(1.)); }), "A02-non-euclidean", "");
    }
  }
  nontrivial();
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, [](Rng & r) {
#if FOCUS == 1
    caseTD(r);
#elif FOCUS == 2
    caseLoop(r);
#elif FOCUS == 3
    caseLTC(r);
#else
    caseProto(r);
#endif
  });
}

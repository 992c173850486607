// Resolution of problems through the schemes, observed at the boundary with the solver.
//  -DFOCUS=1 S03 problem handed to the solver and solution   2 S04 edit histories   3 S05 substitutions
//  4 S10 hierarchical problems   5 S07 refusals and recovery   6 S09 several problems and schemes
//  7 M01 resolutions with forbidden allocations (all the workloads)
//  8 N01 independent problems in several threads (all the workloads)
//  9 M02 release of what is not used anymore (all the workloads)
//  10 K03 content of a problem   11 W01 wrappers of the optimization libraries (stand-ins)
#include "lsq.h"
#if FOCUS == 11
#  include "wrapped.h"
#endif
#if FOCUS >= 4
#  include "hls.h"
#endif
#if FOCUS == 9
#  include <sanitizer/allocator_interface.h>
#  include <tvm/graph/internal/Logger.h>
#endif
#if FOCUS == 8
#  include <atomic>
#  include <thread>
#  include <unistd.h>
#  include <tvm/graph/internal/Logger.h>
#endif
#include "qf.h"
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/VelocityDamper.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using namespace tvm::requirements;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using constraint::Type;
using function::BasicLinearFunction;
using function::IdentityFunction;
using scheme::WeightedLeastSquares;
using scheme::WeightedLeastSquaresOptions;
using MP = tvm::internal::MatrixProperties;

namespace
{
const char * TN[] = {"EQ", "GT", "LT", "DS"};

/** A task with everything needed to know the linear constraint it stands for. */
struct TS
{
  int id = 0;
  Type t = Type::EQUAL;
  int p = 0;
  double w = 1;
  VectorXd aw;           // empty: default
  bool defW = true;
  // affine relation sum M_k v_k + c on the problem variables, or P-controlled quadratic function
  std::vector<PV> vars;  // problem variables
  std::shared_ptr<QF> qf;
  std::shared_ptr<BasicLinearFunction> lf;
  std::shared_ptr<IdentityFunction> id_;
  std::vector<MatrixXd> M;
  VectorXd c;
  int diag = 0;          // >0: bound-like, kind of diagonal
  double kp = 0;
  bool keepM = false;    // the matrices can only be scaled
  MP subProp;            // properties declared for the first matrix
  VectorXd lo, hi;       // right-hand sides (lo used for single-sided ones)
  TaskWithRequirementsPtr tr;
  int m() const { return static_cast<int>(lo.size()); }

  /** M_k, low, high such that low <= sum M_k v_k <= high */
  void linear(std::vector<MatrixXd> & Mk, VectorXd & l, VectorXd & u) const
  {
    VectorXd a, b;
    if(lf)
    {
      Mk = M;
      a = lo - c;
      b = hi - c;
    }
    else
    {
      VectorXd f;
      Mk.clear();
      if(qf)
      {
        f = qf->val();
        for(size_t k = 0; k < vars.size(); ++k)
          Mk.push_back(qf->jac(k));
      }
      else
      {
        f = base->value();
        Mk.push_back(MatrixXd::Identity(m(), m()));
      }
      a = -kp * (f - lo);
      b = -kp * (f - hi);
    }
    const double inf = std::numeric_limits<double>::infinity();
    l = t == Type::LOWER_THAN ? VectorXd::Constant(m(), -inf) : a;
    u = t == Type::GREATER_THAN ? VectorXd::Constant(m(), inf) : t == Type::DOUBLE_SIDED ? b : a;
  }
  VariablePtr base;
};

/** Canonical problem over all the coordinates of the world. */
struct Expected
{
  std::vector<bool> active;
  MatrixXd A, G;     // A: weighted objective; G x >= h (equalities are two rows)
  VectorXd b, h;
  MatrixXd C, Gi;    // equalities C x = d, and inequalities only Gi x >= hi
  VectorXd d, hi;
  bool hasObj = false;
};

struct World
{
  Rng & r;
  Pool P;
  std::vector<bool> isQ;                 // base variable used through its derivative
  VariableVector all;                    // problem variables
  std::vector<int> off;
  int N = 0;
  std::vector<std::unique_ptr<TS>> tasks; // in the problem
  VectorXd secret;
  int next = 0;
  double pSub;
  bool anyLevel = false; // inequalities, bounds and all weights at all levels

  World(Rng & rr, int nv, int maxSize, double ps) : r(rr), P(rr, nv, maxSize), pSub(ps)
  {
    for(int i = 0; i < nv; ++i)
    {
      isQ.push_back(r.b(0.6));
      auto v = P.base[static_cast<size_t>(i)];
      if(isQ.back())
        v = dot(v);
      all.add(v);
      off.push_back(N);
      N += P.sizes[static_cast<size_t>(i)];
    }
    moveState();
    secret = r.vec(N);
  }
  void moveState()
  {
    for(size_t i = 0; i < isQ.size(); ++i)
      if(isQ[i])
        P.base[i]->value(r.vec(P.sizes[i]));
  }
  int col(const PV & v) const { return off[static_cast<size_t>(v.p.base)] + v.p.t; }
  PV problemVar(double ps)
  {
    PV v = P.any(0, ps);
    if(isQ[static_cast<size_t>(v.p.base)])
    {
      v.v = dot(v.v);
      v.p.order = 1;
    }
    return v;
  }
  std::vector<PV> pick(int maxN, double ps, int which) // which: 0 any, 1 only q (not derived)
  {
    std::vector<PV> res;
    int n = r.i(1, maxN);
    for(int k = 0; k < n; ++k)
    {
      PV v = which == 1 ? P.any(0, ps) : problemVar(ps);
      if(which == 1 && !isQ[static_cast<size_t>(v.p.base)])
        continue;
      bool ok = true;
      for(auto & y : res)
        ok = ok && !y.p.intersects(v.p);
      if(ok)
        res.push_back(v);
    }
    return res;
  }

  /** Choose right-hand sides such that the secret point satisfies the task. */
  void feasible(TS & k)
  {
    k.lo = k.hi = VectorXd::Zero(k.m());
    std::vector<MatrixXd> M;
    VectorXd l, u;
    VectorXd v = VectorXd::Zero(k.m());
    k.linear(M, l, u);
    for(size_t q = 0; q < M.size(); ++q)
      v += M[q] * secret.segment(col(k.vars[q]), k.vars[q].p.n);
    VectorXd sl = r.vec(k.m(), 0.05, 1), su = r.vec(k.m(), 0.05, 1);
    auto target = [&](const VectorXd & y) -> VectorXd { // rhs such that the bound on sum M v is y
      if(k.lf)
        return y + k.c;
      VectorXd f = k.qf ? k.qf->val() : VectorXd(k.base->value());
      return f + y / k.kp;
    };
    switch(k.t)
    {
      case Type::EQUAL: k.lo = target(v); break;
      case Type::GREATER_THAN: k.lo = target(v - sl); break;
      case Type::LOWER_THAN: k.lo = target(v + sl); break;
      default: k.lo = target(v - sl); k.hi = target(v + su);
    }
  }

  SolvingRequirements requirements(TS & k)
  {
    k.defW = r.b(0.4);
    k.w = k.defW ? 1 : r.d(0.2, 4);
    bool aniso = (k.p > 0 || anyLevel) && r.b(0.4);
    k.aw.resize(0);
    if(aniso)
      k.aw = r.vec(k.m(), 0.2, 3);
    if(!k.defW && aniso)
      return r.b() ? SolvingRequirements(PriorityLevel(k.p), Weight(k.w), AnisotropicWeight(k.aw))
                   : SolvingRequirements(AnisotropicWeight(k.aw), PriorityLevel(k.p), Weight(k.w));
    if(!k.defW)
      return SolvingRequirements(Weight(k.w), PriorityLevel(k.p));
    if(aniso)
      return SolvingRequirements(PriorityLevel(k.p), AnisotropicWeight(k.aw));
    if(k.p == 0 && r.b())
      return SolvingRequirements();
    return SolvingRequirements(PriorityLevel(k.p));
  }

  std::shared_ptr<BasicLinearFunction> makeLf(TS & k)
  {
    std::vector<MatrixConstRef> A;
    std::vector<VariablePtr> x;
    for(size_t q = 0; q < k.M.size(); ++q)
    {
      A.push_back(k.M[q]);
      x.push_back(k.vars[q].v);
    }
    return std::make_shared<BasicLinearFunction>(A, x, k.c);
  }

  /** A new task, not yet in a problem. */
  std::unique_ptr<TS> make(int maxP, double pObj, double pBound)
  {
    auto t = std::make_unique<TS>();
    TS & k = *t;
    k.id = next++;
    bool obj = r.b(pObj);
    k.p = obj ? r.i(1, maxP) : 0;
    if((!obj || anyLevel) && r.b(pBound)) // bound-like
    {
      k.t = static_cast<Type>(r.i(0, 3) == 0 ? 0 : r.i(1, 3));
      bool qb = r.b(0.3);
      PV v = qb ? P.any(0, pSub) : problemVar(pSub);
      if(qb && isQ[static_cast<size_t>(v.p.base)])
      {
        k.id_ = std::make_shared<IdentityFunction>(v.v);
        k.base = v.v;
        k.kp = r.d(0.5, 3);
        k.vars = {{dot(v.v), {v.p.base, 1, v.p.t, v.p.n}}};
        k.lo = k.hi = VectorXd::Zero(v.p.n);
        k.diag = 4;
      }
      else
      {
        if(qb && isQ[static_cast<size_t>(v.p.base)])
          v = {dot(v.v), {v.p.base, 1, v.p.t, v.p.n}};
        k.vars = {v};
        k.c = r.b() ? VectorXd::Zero(v.p.n) : r.vec(v.p.n);
        k.diag = r.i(1, 3);
        MatrixXd D = MatrixXd::Identity(v.p.n, v.p.n);
        if(k.diag == 2)
          D = -D;
        if(k.diag == 3)
          for(int i = 0; i < v.p.n; ++i)
            D(i, i) = (r.b() ? 1 : -1) * r.d(0.3, 3);
        k.M = {D};
        k.lf = makeLf(k);
        if(k.diag == 1)
          k.lf->A(D, *v.v, MP(MP::IDENTITY));
        else if(k.diag == 2)
          k.lf->A(D, *v.v, MP(MP::MINUS_IDENTITY));
        else
          k.lf->A(D, *v.v, MP(MP::DIAGONAL, MP::Invertibility(true)));
        k.lo = k.hi = VectorXd::Zero(v.p.n);
      }
    }
    else
    {
      k.t = (obj && !anyLevel) || r.b(0.35) ? Type::EQUAL : static_cast<Type>(r.i(1, 3));
      int m = k.t == Type::EQUAL && !obj ? r.i(1, 2) : r.i(1, 3);
      std::vector<PV> q;
      if(r.b())
        q = pick(2, pSub, 1);
      if(!q.empty())
      {
        k.qf = std::make_shared<QF>(r, m, q);
        k.kp = r.d(0.5, 3);
        for(auto & v : q)
          k.vars.push_back({dot(v.v), {v.p.base, 1, v.p.t, v.p.n}});
      }
      else
      {
        k.vars = pick(3, pSub, 0);
        k.c = r.vec(m);
        for(auto & v : k.vars)
          k.M.push_back(r.mat(m, v.p.n));
        k.lf = makeLf(k);
      }
      k.lo = k.hi = VectorXd::Zero(m);
    }
    feasible(k);
    op("task", k.id, TN[int(k.t)], " p", k.p, k.qf ? " qf" : k.id_ ? " id" : " lin", k.diag, " m", k.m());
    for(auto & v : k.vars)
      op(v.str());
    return t;
  }

  Task task(TS & k)
  {
    FunctionPtr f = k.qf ? FunctionPtr(k.qf) : k.lf ? FunctionPtr(k.lf) : FunctionPtr(k.id_);
    auto mk = [&](const auto & td) {
      if(k.t == Type::DOUBLE_SIDED)
        return Task(f, k.t, td, k.lo, k.hi);
      return Task(f, k.t, td, k.lo);
    };
    if(k.lf)
      return mk(task_dynamics::None());
    return mk(task_dynamics::Proportional(k.kp));
  }

  /** Change what the tasks evaluate to, without editing the problem. */
  void evolve()
  {
    op("evolve");
    moveState();
    for(auto & k : tasks)
    {
      if(k->lf && r.b(0.3))
      {
        if(k->keepM && r.b())
        {
          double f = r.d(0.7, 1.4);
          for(size_t q = 0; q < k->M.size(); ++q)
          {
            k->M[q] *= f;
            if(q == 0)
              k->lf->A(k->M[q], *k->vars[q].v, k->subProp);
            else
              k->lf->A(k->M[q], *k->vars[q].v);
          }
        }
        else if(!k->keepM && k->diag == 0 && r.b())
        {
          size_t q = static_cast<size_t>(r.i(0, static_cast<int>(k->M.size()) - 1));
          k->M[q] = r.mat(k->m(), k->vars[q].p.n);
          k->lf->A(k->M[q], *k->vars[q].v);
        }
        else if(!k->keepM && k->diag == 3 && r.b())
        {
          for(int i = 0; i < k->m(); ++i)
            k->M[0](i, i) *= r.d(0.5, 2);
          k->lf->A(k->M[0], *k->vars[0].v, MP(MP::DIAGONAL, MP::Invertibility(true)));
        }
        else
        {
          k->c += 0.2 * r.vec(k->m());
          k->lf->b(k->c);
        }
      }
    }
  }

  Expected expect(const std::vector<TS *> & ts, double levelFactor) const
  {
    Expected e;
    e.active.assign(static_cast<size_t>(N), false);
    std::vector<VectorXd> g, a, c, gi;
    std::vector<double> h, b, d, hi;
    int maxp = 1;
    for(auto k : ts)
      maxp = std::max(maxp, k->p);
    for(auto k : ts)
    {
      std::vector<MatrixXd> M;
      VectorXd l, u;
      k->linear(M, l, u);
      MatrixXd R = MatrixXd::Zero(k->m(), N);
      for(size_t q = 0; q < M.size(); ++q)
      {
        R.middleCols(col(k->vars[q]), k->vars[q].p.n) += M[q];
        for(int i = 0; i < k->vars[q].p.n; ++i)
          e.active[static_cast<size_t>(col(k->vars[q]) + i)] = true;
      }
      for(int i = 0; i < k->m(); ++i)
      {
        if(k->p > 0)
        {
          e.hasObj = true;
          double s = std::sqrt(k->w * (k->aw.size() ? k->aw[i] : 1)) * std::pow(levelFactor, maxp - k->p);
          a.push_back(s * R.row(i).transpose());
          b.push_back(s * l[i]);
          continue;
        }
        if(k->t == Type::EQUAL)
        {
          c.push_back(R.row(i).transpose());
          d.push_back(l[i]);
        }
        if(std::isfinite(l[i]))
        {
          g.push_back(R.row(i).transpose());
          h.push_back(l[i]);
          if(k->t != Type::EQUAL)
          {
            gi.push_back(g.back());
            hi.push_back(h.back());
          }
        }
        if(std::isfinite(u[i]))
        {
          g.push_back(-R.row(i).transpose());
          h.push_back(-u[i]);
          if(k->t != Type::EQUAL)
          {
            gi.push_back(g.back());
            hi.push_back(h.back());
          }
        }
      }
    }
    auto pack = [&](const std::vector<VectorXd> & rows, const std::vector<double> & rhs, MatrixXd & M, VectorXd & v) {
      M.resize(static_cast<Eigen::Index>(rows.size()), N);
      v.resize(M.rows());
      for(size_t k = 0; k < rows.size(); ++k)
      {
        M.row(static_cast<Eigen::Index>(k)) = rows[k].transpose();
        v[static_cast<Eigen::Index>(k)] = rhs[k];
      }
    };
    pack(g, h, e.G, e.h);
    pack(a, b, e.A, e.b);
    pack(c, d, e.C, e.d);
    pack(gi, hi, e.Gi, e.hi);
    return e;
  }
  std::vector<TS *> ptrs() const
  {
    std::vector<TS *> v;
    for(auto & k : tasks)
      v.push_back(k.get());
    return v;
  }
};

// ------------------------------------------------------------------------------------------------ comparison
struct Half
{
  VectorXd a;
  double h;
};
/** Normalized half-spaces with at least two coordinates, and the box made by the others. */
struct Region
{
  std::vector<Half> hs;
  VectorXd lo, hi;
  bool empty = false; // a trivial row is violated
};
Region region(const MatrixXd & G, const VectorXd & h, int n)
{
  Region R;
  const double inf = std::numeric_limits<double>::infinity();
  R.lo = VectorXd::Constant(n, -inf);
  R.hi = VectorXd::Constant(n, inf);
  for(Eigen::Index k = 0; k < G.rows(); ++k)
  {
    int nz = 0, last = -1;
    double s = 0;
    for(int i = 0; i < n; ++i)
      if(G(k, i) != 0)
      {
        ++nz;
        last = i;
        s = std::max(s, std::abs(G(k, i)));
      }
    if(nz == 0)
    {
      if(h[k] > 0)
        R.empty = true;
    }
    else if(nz == 1)
    {
      if(G(k, last) > 0)
        R.lo[last] = std::max(R.lo[last], h[k] / G(k, last));
      else
        R.hi[last] = std::min(R.hi[last], h[k] / G(k, last));
    }
    else
      R.hs.push_back({G.row(k).transpose() / s, h[k] / s});
  }
  return R;
}
bool subset(const Region & A, const Region & B, std::string & why) // every half-space of A is in B
{
  for(auto & a : A.hs)
  {
    bool found = false;
    for(auto & b : B.hs)
      if(close(a.a, b.a, 1e-8) && close(a.h, b.h, 1e-8))
      {
        found = true;
        break;
      }
    if(!found)
    {
      why = show(a.a.transpose()) + " >= " + str(a.h);
      return false;
    }
  }
  return true;
}

/** Snapshot rewritten on the coordinates of the world. */
Expected canonical(const World & W, const lsq::Snapshot & s)
{
  Expected e;
  e.active.assign(static_cast<size_t>(W.N), false);
  std::vector<int> map;
  for(auto & v : s.vars)
  {
    VT_CHECK(W.all.contains(*v), "alien-variable", "the solver uses a variable that is not in the problem: ", v->name());
    auto rg = v->getMappingIn(W.all);
    for(int i = 0; i < rg.dim; ++i)
    {
      VT_CHECK(!e.active[static_cast<size_t>(rg.start + i)], "repeated-coordinate", v->name());
      e.active[static_cast<size_t>(rg.start + i)] = true;
      map.push_back(rg.start + i);
    }
  }
  auto wide = [&](const MatrixXd & M) {
    MatrixXd R = MatrixXd::Zero(M.rows(), W.N);
    for(Eigen::Index c = 0; c < M.cols(); ++c)
      R.col(map[static_cast<size_t>(c)]) = M.col(c);
    return R;
  };
  e.A = wide(s.A);
  e.b = s.b;
  const Eigen::Index nb = s.xl.size();
  MatrixXd G(s.G.rows() + 2 * s.C.rows() + 2 * nb, s.xl.size());
  VectorXd h(G.rows());
  Eigen::Index k = 0;
  auto push = [&](const VectorXd & a, double v) {
    G.row(k) = a.transpose();
    h[k++] = v;
  };
  for(Eigen::Index i = 0; i < s.G.rows(); ++i)
    push(s.G.row(i), s.h[i]);
  for(Eigen::Index i = 0; i < s.C.rows(); ++i)
  {
    push(s.C.row(i), s.d[i]);
    push(-s.C.row(i), -s.d[i]);
  }
  for(Eigen::Index i = 0; i < nb; ++i)
  {
    VT_CHECK(!std::isnan(s.xl[i]) && !std::isnan(s.xu[i]), "unwritten-bound", i);
    if(s.xl[i] > -lsq::BIG)
      push(VectorXd::Unit(nb, i), s.xl[i]);
    if(s.xu[i] < lsq::BIG)
      push(-VectorXd::Unit(nb, i), -s.xu[i]);
  }
  e.G = wide(G.topRows(k));
  e.h = h.head(k);
  e.hasObj = s.A.rows() > 0;
  VT_CHECK(s.A.allFinite() && s.b.allFinite(), "unwritten-objective", show(s.A), " ", show(s.b));
  VT_CHECK(e.G.allFinite() && e.h.allFinite(), "unwritten-constraint", show(e.G), " ", show(e.h));
  return e;
}

/** min ||A x - b|| up to a common factor */
bool sameObjective(const Expected & a, const Expected & b, std::string & why, double tol = 1e-8)
{
  auto form = [](const Expected & e) {
    MatrixXd F(e.A.rows(), e.A.cols() + 1);
    F << e.A, e.b;
    double s = 0;
    if(e.A.size())
      s = e.A.norm();
    MatrixXd H = F.transpose() * F;
    return MatrixXd(s > 0 ? MatrixXd(H / (s * s)) : H);
  };
  MatrixXd x = form(a), y = form(b);
  x(x.rows() - 1, x.cols() - 1) = y(y.rows() - 1, y.cols() - 1) = 0;
  if(tol > 1e-8 && a.A.norm() > 0) // regularization
    tol += 1e-11 / a.A.squaredNorm();
  if((x - y).norm() <= tol * (1 + y.norm()))
    return true;
  why = "got " + show(x) + " expected " + show(y);
  return false;
}

double violation(const Expected & e, const VectorXd & x)
{ return e.G.rows() ? (e.h - e.G * x).maxCoeff() : 0; }

VectorXd worldValue(const World & W)
{
  VectorXd v(W.N);
  for(size_t i = 0; i < W.off.size(); ++i)
    v.segment(W.off[i], W.P.sizes[i]) = W.all[static_cast<int>(i)]->value();
  return v;
}

/** Compare the last problem seen by the solver with the one the tasks stand for. */
void compare(const World & W, const std::vector<TS *> & ts, const lsq::Log & log, double s, const std::string & id,
             const VectorXd & before, bool ok)
{
  const auto & sn = log.last;
  Expected got = canonical(W, sn);
  Expected e1 = W.expect(ts, s), e2 = W.expect(ts, std::sqrt(s));
  for(int i = 0; i < W.N; ++i)
    VT_CHECK(got.active[static_cast<size_t>(i)] == e1.active[static_cast<size_t>(i)], id + "-variables", "coordinate ", i,
             got.active[static_cast<size_t>(i)] ? " is optimized but no task depends on it" : " is not optimized");
  std::string why;
  VT_CHECK(got.hasObj == e1.hasObj || sn.minNorm || sn.degenerate, id + "-objective-presence", got.hasObj);
  if(sn.degenerate)
  {
    Eigen::JacobiSVD<MatrixXd> svd(e1.A);
    const auto na = std::count(e1.active.begin(), e1.active.end(), true);
    const double top = svd.singularValues().size() ? svd.singularValues()[0] : 0;
    VT_CHECK(na > svd.singularValues().size() || svd.singularValues()[na - 1] < 1e-6 * (1 + top), id + "-full-rank", show(svd.singularValues()));
    count("rank_deficient_objectives");
  }
  else if(sn.minNorm)
    VT_CHECK(!e1.hasObj, id + "-objective-ignored", "minimum norm used although there are objectives");
  else if(e1.hasObj)
  {
    bool o = sameObjective(got, e1, why, sn.tol) || sameObjective(got, e2, why, sn.tol);
    VT_CHECK(o, id + "-objective", why);
  }
  Region rg = region(got.G, got.h, W.N), re = region(e1.G, e1.h, W.N);
  VT_CHECK(rg.empty == re.empty, id + "-trivial-row", rg.empty);
  VT_CHECK(subset(re, rg, why), id + "-constraint-missing", why);
  VT_CHECK(subset(rg, re, why), id + "-constraint-extra", why);
  VT_CHECK(close(rg.lo, re.lo, 1e-8), id + "-lower-bounds", show(rg.lo), " expected ", show(re.lo));
  VT_CHECK(close(rg.hi, re.hi, 1e-8), id + "-upper-bounds", show(rg.hi), " expected ", show(re.hi));
  count("problems_compared");
  count("constraint_rows", static_cast<long>(e1.G.rows()));
  count("objective_rows", static_cast<long>(e1.A.rows()));
  VT_CHECK(ok == sn.ok, id + "-status", "solve() said ", ok, " the solver said ", sn.ok);
  if(!ok)
  {
    count("infeasible");
    return;
  }
  count("solved");
  // the values of the variables are the solution, the other ones are untouched
  VectorXd now = worldValue(W);
  VectorXd sol = before;
  int k = 0;
  for(auto & v : sn.vars)
  {
    auto q = v->getMappingIn(W.all);
    sol.segment(q.start, q.dim) = sn.x.segment(k, q.dim);
    k += q.dim;
  }
  VT_CHECK(same(now, sol), id + "-values", "variables ", show(now), " solution ", show(sol));
  if(!sn.accurate)
    return;
  count("accurate");
  VT_CHECK(violation(e1, now) < 1e-5 * (1 + now.norm()), id + "-infeasible-point", violation(e1, now));
}

/** Change the weight of a task in one of the ways offered to the user. */
void changeWeight(Rng & r, TS & t)
{
  t.w = r.d(0.2, 4);
  t.defW = false;
  auto & w = t.tr->requirements.weight();
  switch(r.i(0, 4))
  {
    case 0:
    case 1:
      w.value(t.w);
      break;
    case 2:
      w = t.w;
      break;
    case 3:
      w = Weight(t.w);
      break;
    default:
      t.w = 1;
      t.defW = true;
      w = Weight();
  }
}

void changeAnisotropicWeight(Rng & r, TS & t)
{
  t.aw = r.vec(t.m(), 0.2, 3);
  auto & w = t.tr->requirements.anisotropicWeight();
  switch(r.i(0, 3))
  {
    case 0:
    case 1:
      w.value(t.aw);
      break;
    case 2:
      w = AnisotropicWeight(t.aw);
      break;
    default:
      t.aw.resize(0);
      w = AnisotropicWeight();
  }
}

std::unique_ptr<WeightedLeastSquares> makeScheme(Rng & r, std::shared_ptr<lsq::Log> log, double s, bool damping = false)
{
  auto st = lsq::Style::random(r);
  op("style ", st.name(), damping ? " damping" : "");
  WeightedLeastSquaresOptions o;
  o.scalarizationWeight(s);
  if(damping)
    o.autoDamping(true);
#if FOCUS == 11
  return wrapped::makeWls(r, log, o);
#endif
  return std::make_unique<WeightedLeastSquares>(lsq::RefFactory(st, log), o);
}

/** Bring the secret-based feasibility back after a state change. */
struct Silence
{
  std::ostringstream os;
  std::streambuf * b;
#if FOCUS == 8 // done once for all the threads
  Silence() {}
#else
  Silence() : b(std::cout.rdbuf(os.rdbuf())) {}
  ~Silence() { std::cout.rdbuf(b); }
#endif
};

[[maybe_unused]] bool forbid = true;

/** Resolution. For M01, it is done with the allocations forbidden. */
template<typename S>
bool guarded(S & s, LinearizedControlProblem & pb)
{
#if FOCUS == 7
  using namespace tvm::utils;
  bool v0 = is_malloc_allowed();
  override_is_malloc_allowed(!forbid);
  bool ok = false, allowed = false;
  auto after = [&]() {
    allowed = is_malloc_allowed();
    restore_is_malloc_allowed();
    bool v1 = is_malloc_allowed();
    set_is_malloc_allowed(true);
    VT_CHECK(allowed == !forbid, "M01-permission", allowed);
    VT_CHECK(v1 == v0, "M01-balance", v1);
    count("guarded_resolutions");
  };
  try
  {
    ok = s.solve(pb);
  }
  catch(...)
  {
    after();
    count("guarded_exceptions");
    throw;
  }
  after();
  return ok;
#else
  return s.solve(pb);
#endif
}

// ---------------------------------------------------------------------------------------------------------------- S03
void caseStatic(Rng & r)
{
  Silence q;
  World W(r, r.i(1, 4), 3, r.b(0.3) ? 0.4 : 0.);
  LinearizedControlProblem pb;
  int n = r.i(1, 7);
  double s = r.b() ? 1000. : r.d(2, 50);
  int maxP = r.b(0.7) ? 1 : 3;
  const bool hardOnly = r.b(0.15);
  for(int i = 0; i < n; ++i)
  {
    W.tasks.push_back(W.make(maxP, hardOnly ? 0. : 0.45, 0.5));
    TS & k = *W.tasks.back();
    k.tr = pb.add(W.task(k), W.requirements(k));
  }
  auto log = std::make_shared<lsq::Log>();
  const bool damping = r.b(hardOnly ? 0.5 : 0.2);
  auto sch = makeScheme(r, log, s, damping);
  int steps = r.i(1, 4);
  for(int i = 0; i < steps; ++i)
  {
    if(i)
      W.evolve();
    VectorXd before = worldValue(W);
    bool ok = guarded(*sch, pb);
    VT_CHECK(log->solves == i + 1, "S03-solves", log->solves);
    compare(W, W.ptrs(), *log, s, "S03", before, ok);
    const bool expectMinNorm = damping && !W.expect(W.ptrs(), s).hasObj;
    VT_CHECK(log->last.minNorm == expectMinNorm, "S03-damping", "damping ", damping, " minimum norm ", log->last.minNorm);
    if(expectMinNorm)
      count("minimum_norm");
  }
  VT_CHECK(log->builds == 1, "S03-rebuilt", "data built ", log->builds, " times without any edit");
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- S04
void caseHistory(Rng & r)
{
  Silence q;
  World W(r, r.i(2, 4), 3, r.b(0.3) ? 0.4 : 0.);
  LinearizedControlProblem pb;
  double s = r.d(2, 20);
  int maxP = r.b(0.7) ? 1 : 3;
  auto add = [&]() {
    W.tasks.push_back(W.make(maxP, 0.45, 0.4));
    TS & k = *W.tasks.back();
    k.tr = pb.add(W.task(k), W.requirements(k));
  };
  std::vector<std::unique_ptr<TS>> out; // removed tasks that are kept
  std::vector<std::shared_ptr<lsq::Log>> logs;
  std::vector<std::unique_ptr<WeightedLeastSquares>> schemes;
  int ns = r.b(0.75) ? 1 : 2;
  bool damping = r.b(0.15), emptyOk = r.b(0.3);
  for(int i = 0; i < ns; ++i)
  {
    logs.push_back(std::make_shared<lsq::Log>());
    schemes.push_back(makeScheme(r, logs.back(), s, damping));
  }
  int n = r.i(1, 5);
  for(int i = 0; i < n; ++i)
    add();
  int rounds = r.i(2, 6);
  for(int it = 0; it < rounds; ++it)
  {
    if(it)
    {
      int e = r.i(1, 4);
      for(int j = 0; j < e; ++j)
      {
        int c = r.i(0, 11);
        if(W.tasks.empty() && r.b(0.7))
          add();
        if(W.tasks.empty())
          continue;
        auto any = [&]() { return static_cast<size_t>(r.i(0, static_cast<int>(W.tasks.size()) - 1)); };
        if(c <= 1 && W.tasks.size() < 9)
          add();
        else if(c <= 3 && W.tasks.size() > (emptyOk ? 0u : 1u))
        {
          size_t k = any();
          op("remove", W.tasks[k]->id);
          pb.remove(*W.tasks[k]->tr);
          if(r.b(0.6))
          {
            if(W.tasks[k]->t == Type::EQUAL && W.tasks[k]->p > 0 && r.b(0.2)) // changed while the removal is pending
            {
              W.tasks[k]->p = r.i(W.tasks[k]->diag == 0 && W.tasks[k]->m() <= 2 ? 0 : 1, maxP);
              W.tasks[k]->tr->requirements.priorityLevel().value(W.tasks[k]->p);
            }
            out.push_back(std::move(W.tasks[k]));
          }
          W.tasks.erase(W.tasks.begin() + static_cast<long>(k));
        }
        else if(c == 4 && !out.empty())
        {
          size_t k = static_cast<size_t>(r.i(0, static_cast<int>(out.size()) - 1));
          op("readd", out[k]->id);
          TS & t = *out[k];
          if(t.p > 0 && r.b(0.3)) // changed while out of the problem
          {
            changeWeight(r, t);
          }
          pb.add(t.tr);
          W.tasks.push_back(std::move(out[k]));
          out.erase(out.begin() + static_cast<long>(k));
        }
        else if(c == 5)
        {
          size_t k = any();
          op("cycle", W.tasks[k]->id);
          pb.remove(*W.tasks[k]->tr);
          pb.add(W.tasks[k]->tr);
        }
        else if(c <= 7)
        {
          size_t k = any();
          TS & t = *W.tasks[k];
          if(t.p > 0)
          {
            op("weight", t.id);
            changeWeight(r, t);
            count("weight_changes");
          }
        }
        else if(c == 8)
        {
          size_t k = any();
          TS & t = *W.tasks[k];
          if(t.p > 0)
          {
            op("aniso", t.id);
            changeAnisotropicWeight(r, t);
            count("anisotropic_changes");
          }
        }
        else if(c <= 10)
        {
          size_t k = any();
          TS & t = *W.tasks[k];
          if(t.t == Type::EQUAL && (t.diag == 0 || t.p > 0))
          {
            t.p = r.i(t.diag == 0 && t.m() <= 2 ? 0 : 1, maxP);
            op("priority", t.id, " p", t.p);
            t.tr->requirements.priorityLevel().value(t.p);
            count("priority_changes");
          }
        }
        else
          W.evolve();
        count("edits");
      }
    }
    else
      W.evolve();
    for(size_t k = 0; k < schemes.size(); ++k)
    {
      if(ns == 2 && r.b(0.3))
        continue; // this scheme catches up later
      VectorXd before = worldValue(W);
      bool ok = guarded(*schemes[k], pb);
      op("solve", k);
      if(W.tasks.empty())
      {
        VT_CHECK(ok, "S04-empty-status", ok);
        VT_CHECK(same(worldValue(W), before), "S04-empty-values", show(worldValue(W)));
        count("empty_problems");
        continue;
      }
      compare(W, W.ptrs(), *logs[k], s, "S04", before, ok);
    }
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- S05
struct Sub
{
  std::vector<TS *> cs;
  std::vector<PV> xs;
  int rank = 0;
  int calc = 0; // 0 auto, 1 generic, 2 diagonal(first,size), 3 diagonal(nnz, zeros)
  int first = 0;
  std::vector<Eigen::DenseIndex> nnz, zeros;
  bool deficient = false;
  std::unique_ptr<hint::Substitution> h; // as given by the user
  bool present = false;
  bool simple() const { return cs.size() == 1 && xs.size() == 1; }
};

struct SubWorld
{
  World & W;
  Rng & r;
  LinearizedControlProblem & pb;
  std::vector<std::unique_ptr<Sub>> subs;
  SubWorld(World & w, LinearizedControlProblem & p) : W(w), r(w.r), pb(p) {}

  bool taken(const PV & v) const
  {
    for(auto & s : subs)
      for(auto & x : s->xs)
        if(x.p.base == v.p.base && x.p.t < v.p.t + v.p.n && v.p.t < x.p.t + x.p.n)
          return true;
    return false;
  }
  /** Is v either free of substituted coordinates or made of whole substituted variables and the rest? */
  bool granular(const PV & v) const
  {
    for(auto & s : subs)
      for(auto & x : s->xs)
        if(x.p.base == v.p.base && x.p.t < v.p.t + v.p.n && v.p.t < x.p.t + x.p.n)
          if(!(v.p.t <= x.p.t && x.p.t + x.p.n <= v.p.t + v.p.n))
            return false;
    return true;
  }
  bool granular(const TS & k) const
  {
    for(auto & v : k.vars)
      if(!granular(v))
        return false;
    return true;
  }
  MatrixXd square(int n) // well conditioned
  {
    MatrixXd M = r.mat(n, n);
    Eigen::HouseholderQR<MatrixXd> qr(M);
    VectorXd s = r.vec(n, 0.5, 2);
    MatrixXd Q = qr.householderQ();
    return Q * s.asDiagonal() * (r.b() ? MatrixXd(Q) : MatrixXd::Identity(n, n));
  }
  /** rows x cols of given rank */
  MatrixXd ranked(int m, int n, int k)
  { return square(m).leftCols(k) * square(n).topRows(k); }

  TS * task(const std::vector<PV> & vars, const std::vector<MatrixXd> & M, const MP * p)
  {
    auto t = std::make_unique<TS>();
    TS & k = *t;
    k.id = W.next++;
    k.vars = vars;
    k.M = M;
    const int m = static_cast<int>(M[0].rows());
    k.c = r.b(0.3) ? VectorXd(VectorXd::Zero(m)) : r.vec(m);
    k.keepM = true;
    k.lf = W.makeLf(k);
    if(p)
    {
      k.lf->A(M[0], *vars[0].v, *p);
      k.subProp = *p;
    }
    k.lo = k.hi = VectorXd::Zero(m);
    W.feasible(k);
    if(r.b(0.15)) // zero right-hand side
    {
      k.c = k.c - k.lo;
      k.lf->b(k.c);
      k.lo.setZero();
    }
    op("subtask", k.id, " m", m);
    for(auto & v : vars)
      op(v.str());
    k.tr = pb.add(W.task(k), r.b() ? SolvingRequirements() : SolvingRequirements(PriorityLevel(0)));
    W.tasks.push_back(std::move(t));
    return W.tasks.back().get();
  }
  /** Other variables of the constraints of a substitution of xs. */
  std::vector<PV> others(const std::vector<PV> & xs, int n, bool allowTaken)
  {
    std::vector<PV> res;
    for(int i = 0; i < n; ++i)
    {
      PV v = W.problemVar(W.pSub);
      bool ok = granular(v) && (allowTaken || !taken(v));
      for(auto & y : res)
        ok = ok && !y.p.intersects(v.p);
      for(auto & y : xs)
        ok = ok && !y.p.intersects(v.p);
      if(ok)
        res.push_back(v);
    }
    return res;
  }
  bool addSub(double pRel)
  {
    std::vector<PV> xs;
    int nx = r.b(0.75) ? 1 : 2;
    for(int i = 0; i < nx; ++i)
    {
      PV v = W.problemVar(W.pSub);
      bool ok = !taken(v);
      for(auto & y : xs)
        ok = ok && !y.p.intersects(v.p);
      // the tasks already there must be fine enough
      for(auto & k : W.tasks)
        for(auto & y : k->vars)
          if(y.p.intersects(v.p) && !y.p.contains(v.p))
            ok = false;
      if(ok)
        xs.push_back(v);
    }
    if(xs.empty())
      return false;
    auto s = std::make_unique<Sub>();
    s->xs = xs;
    int n = 0;
    for(auto & x : xs)
      n += x.p.n;
    bool rel = r.b(pRel);
    auto ys = others(xs, r.i(0, 2), rel);
    std::vector<PV> vars;
    std::vector<MatrixXd> M;
    auto fill = [&](int m, const std::vector<PV> & vs) {
      for(auto & v : vs)
      {
        vars.push_back(v);
        M.push_back(0.5 * r.mat(m, v.p.n));
      }
    };
    int kind = xs.size() == 1 ? r.i(0, 6) : r.i(3, 4);
    if(kind <= 1 || (kind == 6 && n == 1)) // (minus) identity, diagonal
    {
      MatrixXd D = MatrixXd::Identity(n, n);
      MP p(MP::IDENTITY);
      int q = r.i(0, 2);
      if(q == 1)
      {
        D = -D;
        p = MP(MP::MINUS_IDENTITY);
      }
      if(q == 2)
      {
        for(int i = 0; i < n; ++i)
          D(i, i) = (r.b() ? 1 : -1) * r.d(0.5, 2);
        p = MP(MP::DIAGONAL, MP::Invertibility(true));
      }
      vars = {xs[0]};
      M = {D};
      fill(n, ys);
      s->calc = r.i(0, 2);
      if(q != 2 && r.b(0.8))
        p = q == 0 ? MP(MP::IDENTITY) : MP(MP::MINUS_IDENTITY);
      s->rank = n;
      auto t = task(vars, M, &p);
      if(q != 2)
        t->keepM = false, t->diag = 5; // matrices do not change
      s->cs = {t};
    }
    else if(kind <= 4) // generic, full row rank
    {
      int m = r.b() ? n : r.i(1, n);
      s->rank = m;
      s->calc = r.i(0, 1);
      MatrixXd A = ranked(m, n, m);
      int m1 = m;
      if(m >= 2 && r.b(0.4))
        m1 = r.i(1, m - 1);
      for(int part = 0; part < (m1 < m ? 2 : 1); ++part)
      {
        vars.clear();
        M.clear();
        int r0 = part ? m1 : 0, mr = part ? m - m1 : m1, c0 = 0;
        for(auto & x : xs)
        {
          vars.push_back(x);
          M.push_back(A.block(r0, c0, mr, x.p.n));
          c0 += x.p.n;
        }
        fill(mr, part && r.b() ? others(xs, r.i(0, 2), rel) : ys);
        s->cs.push_back(task(vars, M, nullptr));
      }
    }
    else if(kind == 5) // rank deficient
    {
      int m = r.i(1, n);
      int k = r.i(1, std::min(n, m));
      vars = {xs[0]};
      M = {ranked(m, n, k)};
      fill(m, others(xs, r.i(0, 2), false));
      s->rank = k;
      s->calc = 1;
      s->deficient = k < m;
      s->cs = {task(vars, M, nullptr)};
    }
    else // diagonal pattern: some variables are not in the constraint, some equations do not have x
    {
      std::vector<int> row; // -1: not in the constraint, 0: zero row, 1: non-zero
      std::vector<int> pat;
      for(int i = 0; i < n; ++i)
        pat.push_back(r.i(-1, 1));
      pat[static_cast<size_t>(r.i(0, n - 1))] = 1;
      int m = 0;
      for(int q : pat)
        m += q >= 0;
      MatrixXd D = MatrixXd::Zero(m, n);
      int k = 0;
      for(int i = 0; i < n; ++i)
      {
        int q = pat[static_cast<size_t>(i)];
        if(q == 1)
        {
          D(k, i) = (r.b() ? 1 : -1) * r.d(0.5, 2);
          s->nnz.push_back(i);
        }
        if(q == 0)
          s->zeros.push_back(i);
        k += q >= 0;
      }
      s->rank = static_cast<int>(s->nnz.size());
      s->deficient = s->rank < m;
      s->calc = 3;
      vars = {xs[0]};
      M = {D};
      fill(m, others(xs, r.i(0, 2), false));
      s->cs = {task(vars, M, nullptr)};
    }
    op("sub", kind, " rank", s->rank, " calc", s->calc);
    subs.push_back(std::move(s));
    return true;
  }
  /** Conditioning of all the full rank substitutions taken together. */
  bool wellConditioned() const
  {
    std::vector<VectorXd> rows;
    for(auto & s : subs)
    {
      if(!s->present)
        continue;
      for(auto k : s->cs)
      {
        std::vector<MatrixXd> M;
        VectorXd l, u;
        k->linear(M, l, u);
        MatrixXd R = MatrixXd::Zero(k->m(), W.N);
        for(size_t q = 0; q < M.size(); ++q)
          R.middleCols(W.col(k->vars[q]), k->vars[q].p.n) += M[q];
        if(!s->deficient)
          for(int i = 0; i < k->m(); ++i)
            rows.push_back(R.row(i).transpose());
      }
    }
    if(rows.empty())
      return true;
    std::vector<int> cols;
    for(auto & s : subs)
      if(s->present && !s->deficient)
        for(auto & x : s->xs)
          for(int i = 0; i < x.p.n; ++i)
            cols.push_back(W.col(x) + i);
    MatrixXd R(static_cast<Eigen::Index>(rows.size()), static_cast<Eigen::Index>(cols.size()));
    for(size_t i = 0; i < rows.size(); ++i)
      for(size_t j = 0; j < cols.size(); ++j)
        R(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = rows[i][cols[j]];
    if(R.rows() > R.cols())
      return false;
    Eigen::JacobiSVD<MatrixXd> svd(R);
    return svd.singularValues().minCoeff() > 0.08;
  }
  void hint(Sub & s)
  {
    std::vector<LinearConstraintPtr> c;
    for(auto k : s.cs)
      c.push_back(pb.constraint(*k->tr));
    std::vector<VariablePtr> x;
    for(auto & v : s.xs)
      x.push_back(v.v);
    int rank = s.rank == static_cast<int>([&] { int m = 0; for(auto k : s.cs) m += k->m(); return m; }()) && r.b()
                   ? constant::fullRank
                   : s.rank;
    using namespace hint::internal;
    switch(s.calc)
    {
      case 0:
        if(s.simple() && r.b())
          s.h = std::make_unique<hint::Substitution>(c[0], x[0], rank);
        else
          s.h = std::make_unique<hint::Substitution>(c, x, rank);
        break;
      case 1:
        s.h = std::make_unique<hint::Substitution>(c, x, rank, GenericCalculator());
        break;
      case 2:
        s.h = std::make_unique<hint::Substitution>(c, x, rank, DiagonalCalculator());
        break;
      default:
        s.h = std::make_unique<hint::Substitution>(c, x, rank, DiagonalCalculator(s.nnz, s.zeros));
    }
    pb.add(*s.h);
    s.present = true;
    op("hint");
    count("substitutions");
  }
  void unhint(Sub & s)
  {
    if(r.b())
      pb.remove(*s.h);
    else
      for(auto & h : pb.substitutions().substitutions())
      if(h.constraints()[0] == pb.constraint(*s.cs[0]->tr))
      {
        pb.remove(h);
        break;
      }
    for(auto k : s.cs)
      VT_CHECK(!pb.substitutions().uses(pb.constraint(*k->tr)), "S05-removal", "substitution still there after its removal");
    s.present = false;
    op("unhint");
  }
};

void compareOptimum(const World & W, const lsq::Log & log, bool ok, const std::string & id)
{
  Expected e = W.expect(W.ptrs(), 1);
  VectorXd ref;
  bool okRef = lsq::solve(e.A, e.b, e.C, e.d, e.Gi, e.hi, ref);
  VectorXd now = worldValue(W);
  auto viol = [&](const VectorXd & x) {
    return std::max(e.C.rows() ? (e.C * x - e.d).cwiseAbs().maxCoeff() : 0., e.Gi.rows() ? (e.hi - e.Gi * x).maxCoeff() : 0.);
  };
  VT_CHECK(now.allFinite(), id + "-nan", show(now));
  if(!okRef && !ok)
  {
    count("infeasible");
    return;
  }
  if(okRef && viol(ref) > 1e-8 * (1 + ref.norm()))
  {
    count("inaccurate");
    return;
  }
  if(ok != okRef)
  {
    // only conclusive if far from the limit of feasibility
    VectorXd x;
    VectorXd sh = e.hi.array() + (okRef ? 1e-3 : -1e-3);
    bool ok2 = lsq::solve(e.A, e.b, e.C, e.d, e.Gi, sh, x);
    count("status_differs");
    VT_CHECK(ok2 != okRef, id + "-status", "solve() said ", ok, " reference ", okRef);
    return;
  }
  if(!log.last.accurate)
  {
    count("inaccurate");
    return;
  }
  double f0 = (e.A * ref - e.b).squaredNorm(), f = (e.A * now - e.b).squaredNorm();
  VT_CHECK(viol(now) < 1e-5 * (1 + now.norm()), id + "-infeasible-point", viol(now), " at ", show(now), " reference ", show(ref));
  VT_CHECK(std::abs(f - f0) < 1e-5 * (1 + f0), id + "-not-optimal", f, " instead of ", f0, " at ", show(now), " reference ", show(ref));
  count("optima_compared");
}

void caseSubstitution(Rng & r)
{
  Silence q;
  World W(r, r.i(2, 5), 3, r.b(0.3) ? 0.4 : 0.);
  LinearizedControlProblem pb;
  SubWorld S(W, pb);
  // every variable is in an objective: the solution is unique
  for(int i = 0; i < static_cast<int>(W.off.size()); ++i)
  {
    auto t = std::make_unique<TS>();
    TS & k = *t;
    k.id = W.next++;
    k.p = 1;
    int n = W.P.sizes[static_cast<size_t>(i)];
    k.vars = {{W.all[i], {i, W.isQ[static_cast<size_t>(i)] ? 1 : 0, 0, n}}};
    k.M = {MatrixXd::Identity(n, n)};
    k.c = r.vec(n);
    k.lf = W.makeLf(k);
    if(r.b())
      k.lf->A(k.M[0], *k.vars[0].v, MP(MP::IDENTITY));
    k.diag = 1;
    k.lo = k.hi = VectorXd::Zero(n);
    k.tr = pb.add(W.task(k), W.requirements(k));
    W.tasks.push_back(std::move(t));
  }
  double pRel = r.b() ? 0.7 : 0.;
  int ns = r.i(1, 3);
  for(int i = 0; i < ns; ++i)
    S.addSub(pRel);
  if(S.subs.empty())
    return;
  auto addTask = [&]() {
    auto t = W.make(1, 0.4, 0.5);
    if(!S.granular(*t))
      return;
    TS & k = *t;
    W.tasks.push_back(std::move(t));
    k.tr = pb.add(W.task(k), W.requirements(k));
  };
  int n = r.i(0, 4);
  for(int i = 0; i < n; ++i)
    addTask();
  auto log = std::make_shared<lsq::Log>();
  auto sch = makeScheme(r, log, 10.);
  auto solve = [&](const std::string & id) {
    op("solve");
    bool ok = guarded(*sch, pb);
    compareOptimum(W, *log, ok, id);
  };
  if(r.b(0.3))
    solve("S05-none");
  for(auto & s : S.subs)
  {
    S.hint(*s);
    if(!S.wellConditioned())
      S.unhint(*s);
    else if(r.b(0.3))
      solve("S05");
  }
  solve("S05");
  nontrivial();
  int steps = r.i(0, 5);
  for(int i = 0; i < steps; ++i)
  {
    int c = r.i(0, 6);
    if(c <= 1)
      W.evolve();
    else if(c == 2)
      addTask();
    else if(c == 3)
    {
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(S.subs.size()) - 1));
      Sub & s = *S.subs[k];
      if(s.present)
        S.unhint(s);
      else if(!s.cs.empty())
      {
        S.hint(s);
      }
    }
    else if(c == 4) // remove a task that is neither a damping nor used by a substitution
    {
      for(size_t k = W.off.size(); k < W.tasks.size(); ++k)
      {
        bool used = false;
        for(auto & s : S.subs)
          for(auto y : s->cs)
            used = used || y == W.tasks[k].get();
        if(!used)
        {
          op("remove", W.tasks[k]->id);
          pb.remove(*W.tasks[k]->tr);
          W.tasks.erase(W.tasks.begin() + static_cast<long>(k));
          break;
        }
      }
    }
    else if(c == 5) // remove a task used by a substitution
    {
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(S.subs.size()) - 1));
      Sub & s = *S.subs[k];
      if(!s.cs.empty())
      {
        TS * t = s.cs[0];
        op("remove-sub-task", t->id);
        bool refused = throws([&] { pb.remove(*t->tr); });
        VT_CHECK(refused == (s.present && !s.simple()), "S05-removal-refusal", refused);
        if(!refused)
        {
          s.present = false;
          s.cs.clear();
          s.xs.clear();
          for(size_t j = 0; j < W.tasks.size(); ++j)
            if(W.tasks[j].get() == t)
            {
              W.tasks.erase(W.tasks.begin() + static_cast<long>(j));
              break;
            }
          count("substituted_tasks_removed");
        }
        else
          count("removals_refused");
      }
    }
    else
      W.evolve();
    for(int tries = 0; tries < 20 && !S.wellConditioned(); ++tries)
      for(auto & s : S.subs)
        if(s->present && !S.wellConditioned())
          S.unhint(*s);
    if(r.b(0.7))
      solve("S05-edited");
  }
}
// ---------------------------------------------------------------------------------------------------------------- S10
#if FOCUS >= 4
using scheme::HierarchicalLeastSquares;
using scheme::HierarchicalLeastSquaresOptions;

/** Half-spaces of each level with the weights of the tasks, on the coordinates of the world. */
std::vector<std::vector<Half>> expectedLevels(const World & W, const std::vector<TS *> & ts)
{
  std::vector<std::vector<Half>> L(1);
  for(auto k : ts)
  {
    if(L.size() <= static_cast<size_t>(k->p))
      L.resize(static_cast<size_t>(k->p) + 1);
    std::vector<MatrixXd> M;
    VectorXd l, u;
    k->linear(M, l, u);
    MatrixXd R = MatrixXd::Zero(k->m(), W.N);
    for(size_t q = 0; q < M.size(); ++q)
      R.middleCols(W.col(k->vars[q]), k->vars[q].p.n) += M[q];
    for(int i = 0; i < k->m(); ++i)
    {
      double s = std::sqrt(k->w * (k->aw.size() ? k->aw[i] : 1));
      if(std::isfinite(l[i]))
        L[static_cast<size_t>(k->p)].push_back({s * R.row(i).transpose(), s * l[i]});
      if(std::isfinite(u[i]))
        L[static_cast<size_t>(k->p)].push_back({-s * R.row(i).transpose(), -s * u[i]});
    }
  }
  return L;
}

Region regionOf(const std::vector<Half> & v, int n)
{
  MatrixXd G(static_cast<Eigen::Index>(v.size()), n);
  VectorXd h(G.rows());
  for(size_t i = 0; i < v.size(); ++i)
  {
    G.row(static_cast<Eigen::Index>(i)) = v[i].a.transpose();
    h[static_cast<Eigen::Index>(i)] = v[i].h;
  }
  return region(G, h, n);
}

/** Same half-spaces, weights included, each as many times. */
void sameRows(std::vector<Half> got, const std::vector<Half> & exp, const std::string & id, size_t lvl)
{
  for(auto & e : exp)
  {
    bool found = false;
    for(size_t i = 0; i < got.size() && !found; ++i)
      if(close(got[i].a, e.a, 1e-8) && close(got[i].h, e.h, 1e-8))
      {
        got.erase(got.begin() + static_cast<long>(i));
        found = true;
      }
    VT_CHECK(found, id + "-row-missing", "level ", lvl, ": ", show(e.a.transpose()), " >= ", e.h);
  }
  VT_CHECK(got.empty(), id + "-row-extra", "level ", lvl, ": ", show(got[0].a.transpose()), " >= ", got[0].h);
  count("level_rows", static_cast<long>(exp.size()));
}

void compareHierarchy(const World & W, const std::vector<TS *> & ts, const hls::Log & log, const std::string & id, const VectorXd & before, bool ok,
                      bool damping)
{
  auto & s = log.last;
  std::vector<bool> active(static_cast<size_t>(W.N), false), act(static_cast<size_t>(W.N), false);
  std::vector<int> map;
  for(auto & v : s.vars)
  {
    VT_CHECK(W.all.contains(*v), id + "-alien-variable", v->name());
    auto rg = v->getMappingIn(W.all);
    for(int i = 0; i < rg.dim; ++i)
    {
      VT_CHECK(!act[static_cast<size_t>(rg.start + i)], id + "-repeated", v->name());
      act[static_cast<size_t>(rg.start + i)] = true;
      map.push_back(rg.start + i);
    }
  }
  for(auto k : ts)
    for(auto & v : k->vars)
      for(int i = 0; i < v.p.n; ++i)
        active[static_cast<size_t>(W.col(v) + i)] = true;
  for(int i = 0; i < W.N; ++i)
    VT_CHECK(active[static_cast<size_t>(i)] == act[static_cast<size_t>(i)], id + "-variables", "coordinate ", i);
  auto wide = [&](const VectorXd & a) {
    VectorXd x = VectorXd::Zero(W.N);
    for(Eigen::Index c = 0; c < a.size(); ++c)
      x[map[static_cast<size_t>(c)]] = a[c];
    return x;
  };
  auto exp = expectedLevels(W, ts);
  std::vector<std::vector<Half>> got;
  for(auto & l : s.lvl)
  {
    got.emplace_back();
    for(size_t i = 0; i < l.a.size(); ++i)
    {
      VT_CHECK(l.a[i].allFinite() && std::isfinite(l.h[i]), id + "-unwritten", show(l.a[i]), " ", l.h[i]);
      got.back().push_back({wide(l.a[i]), l.h[i]});
    }
  }
  VT_CHECK(s.minNorm == damping, id + "-damping", s.minNorm);
  if(damping)
  {
    VT_CHECK(!got.empty(), id + "-damping-level", "no level");
    VT_CHECK(got.size() > 1 || exp[0].empty(), id + "-damping-alone", "the minimum norm is at the level of the constraints");
    got.pop_back(); // not necessarily the identity: the solver takes care of it
  }
  while(got.size() < exp.size())
    got.emplace_back();
  for(size_t p = exp.size(); p < got.size(); ++p)
    VT_CHECK(got[p].empty(), id + "-levels", "level ", p, " is not empty");
  // level 0 may use bounds
  std::vector<Half> b0 = got[0];
  for(Eigen::Index i = 0; i < s.xl.size(); ++i)
  {
    VT_CHECK(!std::isnan(s.xl[i]) && !std::isnan(s.xu[i]), id + "-unwritten-bound", i);
    if(s.xl[i] > -lsq::BIG)
      b0.push_back({wide(VectorXd::Unit(s.xl.size(), i)), s.xl[i]});
    if(s.xu[i] < lsq::BIG)
      b0.push_back({wide(-VectorXd::Unit(s.xl.size(), i)), -s.xu[i]});
  }
  Region rg = regionOf(b0, W.N), re = regionOf(exp[0], W.N);
  std::string why;
  VT_CHECK(rg.empty == re.empty, id + "-trivial-row", rg.empty);
  VT_CHECK(subset(re, rg, why), id + "-constraint-missing", why);
  VT_CHECK(subset(rg, re, why), id + "-constraint-extra", why);
  VT_CHECK(close(rg.lo, re.lo, 1e-8), id + "-lower-bounds", show(rg.lo), " expected ", show(re.lo));
  VT_CHECK(close(rg.hi, re.hi, 1e-8), id + "-upper-bounds", show(rg.hi), " expected ", show(re.hi));
  auto big = [](const std::vector<Half> & v) {
    std::vector<Half> o;
    for(auto & h : v)
      if((h.a.array() != 0).count() >= 2)
        o.push_back(h);
    return o;
  };
  sameRows(big(got[0]), big(exp[0]), id, 0);
  for(size_t p = 1; p < exp.size(); ++p)
    sameRows(got[p], exp[p], id, p);
  count("problems_compared");
  VT_CHECK(ok == s.ok, id + "-status", ok);
  if(!ok)
  {
    count("failures");
    return;
  }
  VectorXd sol = before;
  int k = 0;
  for(auto & v : s.vars)
  {
    auto q = v->getMappingIn(W.all);
    sol.segment(q.start, q.dim) = s.x.segment(k, q.dim);
    k += q.dim;
  }
  VT_CHECK(same(worldValue(W), sol), id + "-values", "variables ", show(worldValue(W)), " solution ", show(sol));
}

std::unique_ptr<HierarchicalLeastSquares> makeHls(Rng & r, std::shared_ptr<hls::Log> log, bool damping)
{
  log->r = &r;
  HierarchicalLeastSquaresOptions o;
  if(damping)
    o.autoDamping(true);
#if FOCUS == 11
  return wrapped::makeHls(r, log, o);
#endif
  return std::make_unique<HierarchicalLeastSquares>(hls::RefFactory(hls::Style::random(r), log), o);
}

void caseHierarchy(Rng & r)
{
  Silence q;
  World W(r, r.i(1, 4), 3, r.b(0.3) ? 0.4 : 0.);
  W.anyLevel = true;
  LinearizedControlProblem pb;
  int maxP = r.i(1, 4);
  auto add = [&]() {
    W.tasks.push_back(W.make(maxP, 0.6, 0.4));
    TS & k = *W.tasks.back();
    k.tr = pb.add(W.task(k), W.requirements(k));
  };
  int n = r.i(1, 6);
  for(int i = 0; i < n; ++i)
    add();
  bool damping = r.b(0.3);
  auto log = std::make_shared<hls::Log>();
  auto sch = makeHls(r, log, damping);
  int rounds = r.i(1, 6);
  bool edits = r.b(0.7);
  for(int it = 0; it < rounds; ++it)
  {
    int e = it && edits ? r.i(0, 3) : 0;
    for(int j = 0; j < e; ++j)
    {
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(W.tasks.size()) - 1));
      TS & t = *W.tasks[k];
      switch(r.i(0, 5))
      {
        case 5:
          t.p = r.i(0, maxP);
          op("priority", t.id, " p", t.p);
          t.tr->requirements.priorityLevel().value(t.p);
          count("priority_changes");
          break;
        case 0:
          add();
          break;
        case 1:
          if(W.tasks.size() > 1)
          {
            op("remove", t.id);
            pb.remove(*t.tr);
            W.tasks.erase(W.tasks.begin() + static_cast<long>(k));
          }
          break;
        case 2:
          op("weight", t.id);
          changeWeight(r, t);
          count("weight_changes");
          break;
        case 3:
          op("aniso", t.id);
          changeAnisotropicWeight(r, t);
          count("weight_changes");
          break;
        default:
          W.evolve();
      }
      count("edits");
    }
    if(it && r.b())
      W.evolve();
    if(r.b(0.1))
      log->failNext = true;
    if(r.b(0.05))
    {
      log->throwNext = true;
      VT_CHECK(throws([&] { guarded(*sch, pb); }), "S10-solver-exception", "lost");
      count("solver_exceptions");
    }
    op("solve");
    VectorXd before = worldValue(W);
    bool ok = guarded(*sch, pb);
    compareHierarchy(W, W.ptrs(), *log, "S10", before, ok, damping);
  }
  nontrivial();
}

/** The same solver object, given several problems one after the other. */
template<bool hier>
void caseRebuild(Rng & r)
{
  Silence q;
  World W(r, r.i(1, 4), 3, r.b(0.3) ? 0.4 : 0.);
  W.anyLevel = hier;
  std::vector<std::unique_ptr<LinearizedControlProblem>> pbs;
  std::vector<std::unique_ptr<VariableVector>> xs;
  auto log = std::make_shared<std::conditional_t<hier, hls::Log, lsq::Log>>();
  auto solver = [&]() {
    if constexpr(hier)
    {
      log->r = &r;
      return hls::RefFactory(hls::Style::random(r), log).createSolver();
    }
    else
      return lsq::RefFactory(lsq::Style::random(r), log).createSolver();
  }();
  const int maxP = hier ? r.i(1, 4) : 1;
  int rounds = r.i(2, 4);
  for(int it = 0; it < rounds; ++it)
  {
    W.tasks.clear();
    pbs.push_back(std::make_unique<LinearizedControlProblem>());
    xs.push_back(std::make_unique<VariableVector>());
    auto & pb = *pbs.back();
    auto & x = *xs.back();
    int n = r.i(1, 5);
    for(int i = 0; i < n; ++i)
    {
      W.tasks.push_back(W.make(maxP, hier ? 0.6 : 0.45, 0.4));
      TS & k = *W.tasks.back();
      k.tr = pb.add(W.task(k), W.requirements(k));
    }
    pb.update();
    auto cs = pb.constraints();
    const bool damping = hier && r.b(0.3);
    internal::VariableCountingVector counted;
    std::vector<int> ne(1, 0), ni(1, 0);
    int no = 0;
    bool useBounds = false;
    std::vector<bool> asBound;
    for(auto & c : cs)
    {
      for(auto & v : c.constraint->variables().variables())
        counted.add(v);
      auto p = static_cast<size_t>(c.requirements->priorityLevel().value());
      asBound.push_back(c.bound && p == 0);
      if(asBound.back())
        useBounds = true;
      else if(!hier && p > 0)
        no += c.constraint->size();
      else
      {
        if(p >= ne.size())
        {
          ne.resize(p + 1, 0);
          ni.resize(p + 1, 0);
        }
        (c.constraint->isEquality() ? ne : ni)[p] += solver->constraintSize(*c.constraint);
      }
    }
    x = counted.variables();
    if(damping)
    {
      ne.push_back(x.totalSize());
      ni.push_back(0);
    }
    op("build");
    if constexpr(hier)
      solver->startBuild(x, ne, ni, useBounds, nullptr);
    else
      solver->startBuild(x, no, ne[0], ni[0], useBounds, nullptr);
    for(size_t i = 0; i < cs.size(); ++i)
    {
      auto & c = cs[i];
      if(asBound[i])
        solver->addBound(c.constraint);
      else if constexpr(hier)
        solver->addConstraint(c.constraint, c.requirements);
      else if(c.requirements->priorityLevel().value() > 0)
        solver->addObjective(c.constraint, c.requirements);
      else
        solver->addConstraint(c.constraint);
    }
    if constexpr(hier)
      if(damping)
        solver->setMinimumNorm();
    solver->finalizeBuild();
    VectorXd before = worldValue(W);
    bool ok = solver->solve();
    if(ok)
      x.value(solver->result());
    if constexpr(hier)
      compareHierarchy(W, W.ptrs(), *log, "S10-rebuilt", before, ok, damping);
    else
      compare(W, W.ptrs(), *log, 2., "S03-rebuilt", before, ok);
    count("rebuilds");
  }
  nontrivial();
}

void caseHierarchySubstitution(Rng & r)
{
  Silence q;
  World W(r, r.i(2, 4), 3, r.b(0.3) ? 0.4 : 0.);
  LinearizedControlProblem pb;
  SubWorld S(W, pb);
  int last = r.i(2, 4);
  for(int i = 0; i < static_cast<int>(W.off.size()); ++i) // unique solution
  {
    auto t = std::make_unique<TS>();
    TS & k = *t;
    k.id = W.next++;
    k.p = last;
    int n = W.P.sizes[static_cast<size_t>(i)];
    k.vars = {{W.all[i], {i, W.isQ[static_cast<size_t>(i)] ? 1 : 0, 0, n}}};
    k.M = {MatrixXd::Identity(n, n)};
    k.c = r.vec(n);
    k.lf = W.makeLf(k);
    k.diag = 1;
    k.lo = k.hi = VectorXd::Zero(n);
    k.tr = pb.add(W.task(k), W.requirements(k));
    W.tasks.push_back(std::move(t));
  }
  int ns = r.i(1, 2);
  for(int i = 0; i < ns; ++i)
    S.addSub(r.b() ? 0.7 : 0.);
  if(S.subs.empty())
    return;
  auto addTask = [&]() {
    auto t = W.make(last - 1, 1., 0.);
    if(!S.granular(*t))
      return;
    TS & k = *t;
    W.tasks.push_back(std::move(t));
    k.tr = pb.add(W.task(k), W.requirements(k));
  };
  int n = r.i(0, 3);
  for(int i = 0; i < n; ++i)
    addTask();
  auto log = std::make_shared<hls::Log>();
  auto sch = makeHls(r, log, false);
  auto solve = [&]() {
    op("solve");
    bool ok = guarded(*sch, pb);
    VT_CHECK(ok, "S10-substitution-status", ok);
    auto L = expectedLevels(W, W.ptrs());
    std::vector<std::pair<MatrixXd, VectorXd>> P;
    for(auto & l : L)
    {
      MatrixXd E(static_cast<Eigen::Index>(l.size()), W.N);
      VectorXd f(E.rows());
      for(size_t i = 0; i < l.size(); ++i)
      {
        E.row(static_cast<Eigen::Index>(i)) = l[i].a.transpose();
        f[static_cast<Eigen::Index>(i)] = l[i].h;
      }
      P.emplace_back(E, f);
    }
    // conclusive if ranks are clear-cut at each level
    VectorXd ref = hls::lexicographic(P, W.N), now = worldValue(W);
    VT_CHECK(now.allFinite(), "S10-nan", show(now));
    VectorXd ra = (P[0].first * now - P[0].second), rb = (P[0].first * ref - P[0].second);
    if(rb.size() && rb.norm() > 1e-7)
    {
      count("infeasible");
      return;
    }
    VT_CHECK(ra.size() == 0 || ra.norm() < 1e-5 * (1 + now.norm()), "S10-substituted-constraint", ra.norm());
    for(size_t p = 1; p < P.size(); ++p)
    {
      double a = (P[p].first * now - P[p].second).norm(), b = (P[p].first * ref - P[p].second).norm();
      if(a < b - 1e-4 * (1 + b))
        break; // the reference is the inaccurate one
      VT_CHECK(a < b + 1e-4 * (1 + b), "S10-not-optimal", "level ", p, ": ", a, " instead of ", b);
    }
    count("optima_compared");
  };
  for(auto & s : S.subs)
  {
    if(r.b(0.3))
      solve();
    S.hint(*s);
    if(!S.wellConditioned())
      S.unhint(*s);
  }
  solve();
  nontrivial();
  int steps = r.i(0, 4);
  for(int i = 0; i < steps; ++i)
  {
    int c = r.i(0, 3);
    if(c == 0)
      addTask();
    else if(c == 1)
    {
      Sub & s = *S.subs[static_cast<size_t>(r.i(0, static_cast<int>(S.subs.size()) - 1))];
      if(s.present)
        S.unhint(s);
      else
        S.hint(s);
    }
    else
      W.evolve();
    for(int tries = 0; tries < 20 && !S.wellConditioned(); ++tries)
      for(auto & s : S.subs)
        if(s->present && !S.wellConditioned())
          S.unhint(*s);
    solve();
  }
}

// ---------------------------------------------------------------------------------------------------------------- S07
/** A scheme of one of the two kinds, and the comparison of what its solver received with some tasks. */
struct Scheme
{
  bool hier;
  double s;
  std::shared_ptr<lsq::Log> l = std::make_shared<lsq::Log>();
  std::shared_ptr<hls::Log> h = std::make_shared<hls::Log>();
  std::unique_ptr<WeightedLeastSquares> wls;
  std::unique_ptr<HierarchicalLeastSquares> hls_;
  Scheme(Rng & r, bool hier_) : hier(hier_), s(r.d(2, 20))
  {
    if(hier)
      hls_ = makeHls(r, h, false);
    else
      wls = makeScheme(r, l, s);
  }
  bool solve(LinearizedControlProblem & pb) const { return hier ? guarded(*hls_, pb) : guarded(*wls, pb); }
  long solves() const { return hier ? h->solves : l->solves; }
  void failNext() { (hier ? h->failNext : l->failNext) = true; }
  void throwNext() { (hier ? h->throwNext : l->throwNext) = true; }
  void bigNumber(double b)
  {
    if(hier)
      hls_->big_number(b);
    else
      wls->big_number(b);
  }
  void check(LinearizedControlProblem & pb, const World & W, const std::vector<TS *> & ts, const std::string & id) const
  {
    VectorXd before = worldValue(W);
    bool ok = solve(pb);
    if(ts.empty())
    {
      VT_CHECK(ok, id + "-empty-status", ok);
      return;
    }
    if(hier)
      compareHierarchy(W, ts, *h, id, before, ok, false);
    else
      compare(W, ts, *l, s, id, before, ok);
  }
};

void caseRefusal(Rng & r)
{
  Silence q;
  World W(r, r.i(2, 4), 3, r.b(0.3) ? 0.4 : 0.);
  Scheme sch(r, r.b(0.4));
  W.anyLevel = sch.hier;
  LinearizedControlProblem pb;
  int maxP = r.b(0.7) ? 1 : 3;
  auto add = [&]() {
    W.tasks.push_back(W.make(maxP, 0.5, 0.4));
    TS & k = *W.tasks.back();
    k.tr = pb.add(W.task(k), W.requirements(k));
  };
  auto any = [&]() -> TS & { return *W.tasks[static_cast<size_t>(r.i(0, static_cast<int>(W.tasks.size()) - 1))]; };
  auto drop = [&](TS * t) {
    pb.remove(*t->tr);
    for(size_t i = 0; i < W.tasks.size(); ++i)
      if(W.tasks[i].get() == t)
        W.tasks.erase(W.tasks.begin() + static_cast<long>(i));
  };
  int n = r.i(1, 5);
  for(int i = 0; i < n; ++i)
    add();
  if(r.b(0.7))
    sch.check(pb, W, W.ptrs(), "S07");
  auto refused = [&](const char * what) {
    int times = r.i(1, 3);
    for(int i = 0; i < times; ++i)
    {
      VectorXd before = worldValue(W);
      long s0 = sch.solves();
      bool t = throws([&] { sch.solve(pb); });
      VT_CHECK(t, "S07-accepted", what, ", attempt ", i + 1);
      VT_CHECK(same(worldValue(W), before), "S07-changed-variables", what);
      VT_CHECK(sch.solves() == s0, "S07-solved", what);
      count("refused");
      if(r.b(0.3)) // edits in between
        r.b() || W.tasks.size() < 3 ? add() : W.evolve();
    }
    op("refused ", what);
  };
  int rounds = r.i(1, 5);
  for(int it = 0; it < rounds; ++it)
  {
    switch(r.i(0, 7))
    {
      case 0: // inequality at a level that can't handle it
        if(!sch.hier)
        {
          W.anyLevel = true;
          std::unique_ptr<TS> t;
          do
            t = W.make(maxP, 1, 0.5);
          while(t->t == Type::EQUAL);
          W.anyLevel = false;
          W.tasks.push_back(std::move(t));
          TS * k = W.tasks.back().get();
          k->tr = pb.add(W.task(*k), W.requirements(*k));
          if(r.b(0.2))
            add();
          refused("inequality");
          drop(k);
        }
        break;
      case 1: // norm that can't be handled
      {
        W.tasks.push_back(W.make(maxP, 0.6, 0.4));
        TS * k = W.tasks.back().get();
        auto v = r.b() ? ViolationEvaluationType::L1 : ViolationEvaluationType::LINF;
        k->tr = pb.add(W.task(*k), {PriorityLevel(k->p), ViolationEvaluation(v)});
        refused("norm");
        drop(k);
        break;
      }
      case 2: // wrong size
      {
        W.tasks.push_back(W.make(maxP, 1, 0.));
        TS * k = W.tasks.back().get();
        VectorXd aw = r.vec(k->m() + (r.b() ? 1 : k->m() > 1 ? -1 : 2), 0.2, 3);
        k->tr = pb.add(W.task(*k), {PriorityLevel(k->p), AnisotropicWeight(aw)});
        refused("anisotropic weight");
        if(r.b())
          drop(k);
        else
        {
          k->aw = r.vec(k->m(), 0.2, 3);
          k->tr->requirements.anisotropicWeight().value(k->aw);
        }
        break;
      }
      case 3: // wrong size, changed
      {
        TS & k = any();
        if(k.p == 0)
          break;
        VectorXd aw = r.vec(k.m() + (r.b() ? 1 : k.m() > 1 ? -1 : 2), 0.2, 3);
        TS * pk = &k;
        k.tr->requirements.anisotropicWeight().value(aw);
        refused("changed anisotropic weight");
        if(r.b() && W.tasks.size() > 1)
          drop(pk);
        else
        {
          pk->aw = r.vec(pk->m(), 0.2, 3);
          pk->tr->requirements.anisotropicWeight().value(pk->aw);
        }
        break;
      }
      case 4: // exception of the solver
      {
        VectorXd before = worldValue(W);
        sch.throwNext();
        VT_CHECK(throws([&] { sch.solve(pb); }), "S07-lost-exception", "solver");
        VT_CHECK(same(worldValue(W), before), "S07-changed-variables", "solver exception");
        count("solver_exceptions");
        break;
      }
      case 5:
        sch.failNext();
        VT_CHECK(!sch.solve(pb), "S07-lost-failure", "solver");
        count("solver_failures");
        break;
      case 6: // exception of a function
      {
        std::vector<TS *> qs;
        for(auto & t : W.tasks)
          if(t->qf)
            qs.push_back(t.get());
        if(qs.empty())
          break;
        TS * k = qs[static_cast<size_t>(r.i(0, static_cast<int>(qs.size()) - 1))];
        k->qf->failIn = r.i(1, 2);
        refused("function");
        if(r.b(0.3) && W.tasks.size() > 1)
          drop(k);
        else
          k->qf->failIn = 0;
        count("function_exceptions");
        break;
      }
      default: // refused addition
      {
        std::vector<PV> v = {W.P.any(0, W.pSub)};
        auto f = std::make_shared<QF>(r, 2, v);
        int s0 = pb.size();
        auto tr = std::make_shared<TaskWithRequirements>(
            Task(f, Type::EQUAL, task_dynamics::Constant(), VectorXd::Zero(2).eval()), SolvingRequirements(PriorityLevel(r.i(0, 1))));
        VT_CHECK(throws([&] { pb.add(tr); }), "S07-accepted", "non linear function");
        VT_CHECK(pb.size() == s0 && static_cast<int>(pb.tasks().size()) == s0, "S07-kept-task", pb.size());
        tr->requirements.weight().value(2.);
        if(r.b())
          pb.remove(*tr);
        VT_CHECK(pb.size() == s0, "S07-kept-task", pb.size());
        count("refused_additions");
      }
    }
    if(r.b(0.3))
      W.evolve();
    if(r.b(0.2) && W.tasks.size() < 8)
      add();
    sch.check(pb, W, W.ptrs(), "S07");
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- S09
struct Problem
{
  std::unique_ptr<LinearizedControlProblem> pb = std::make_unique<LinearizedControlProblem>();
  std::vector<TS *> ts;
  bool has(TS * t) const { return std::find(ts.begin(), ts.end(), t) != ts.end(); }
};

void caseIsolation(Rng & r)
{
  Silence q;
  World W(r, r.i(2, 4), 3, r.b(0.3) ? 0.4 : 0.);
  int maxP = r.b(0.7) ? 1 : 3;
  auto task = [&]() {
    W.tasks.push_back(W.make(maxP, 0.5, 0.4));
    TS & k = *W.tasks.back();
    k.tr = std::make_shared<TaskWithRequirements>(W.task(k), W.requirements(k));
  };
  int n = r.i(2, 6);
  for(int i = 0; i < n; ++i)
    task();
  std::vector<std::unique_ptr<Problem>> ps;
  std::vector<std::unique_ptr<Scheme>> ss;
  std::vector<double> bigs;
  auto problem = [&]() {
    ps.push_back(std::make_unique<Problem>());
    Problem & p = *ps.back();
    bool adopt = r.b(0.3);
    ControlProblem cp;
    for(auto & t : W.tasks)
      if(r.b())
      {
        if(adopt)
          cp.add(t->tr);
        else
          p.pb->add(t->tr);
        p.ts.push_back(t.get());
      }
    if(adopt)
    {
      p.pb = std::make_unique<LinearizedControlProblem>(cp);
      count("adopted");
    }
    op("problem ", p.ts.size());
  };
  auto scheme = [&]() {
    ss.push_back(std::make_unique<Scheme>(r, r.b(0.4)));
    double b = tvm::constant::big_number;
    if(r.b(0.6))
    {
      b = std::pow(10., 25 + 5 * r.i(0, 3));
      ss.back()->bigNumber(b);
    }
    bigs.push_back(b);
    op("scheme ", b);
  };
  problem();
  problem();
  scheme();
  if(r.b())
    scheme();
  auto pick = [&](auto & v) { return static_cast<size_t>(r.i(0, static_cast<int>(v.size()) - 1)); };
  int steps = r.i(4, 24);
  for(int it = 0; it < steps; ++it)
  {
    int c = r.i(0, 19);
    if(c < 9)
    {
      size_t i = pick(ps), j = pick(ss);
      op("solve ", i, " ", j);
      long s0 = ss[j]->solves();
      ss[j]->check(*ps[i]->pb, W, ps[i]->ts, "S09");
      VT_CHECK(ss[j]->solves() == s0 + (ps[i]->ts.empty() ? 0 : 1), "S09-solves", ss[j]->solves());
      if(!ps[i]->ts.empty())
      {
        auto rows = ss[j]->hier ? ss[j]->h->last.rowBig : ss[j]->l->last.rowBig;
        auto bnds = ss[j]->hier ? ss[j]->h->last.boundBig : ss[j]->l->last.boundBig;
        for(double v : rows)
          VT_CHECK(ss[j]->hier ? v < 300 * bigs[j] && v > bigs[j] / 300 : v == bigs[j], "S09-big-number", v, " instead of ", bigs[j]);
        for(double v : bnds)
          VT_CHECK((v < 300 * bigs[j] && v > bigs[j] / 300) || v == tvm::constant::big_number, "S09-big-number", v, " instead of ", bigs[j]);
        count("limits", static_cast<long>(rows.size() + bnds.size()));
      }
    }
    else if(c < 11)
    {
      Problem & p = *ps[pick(ps)];
      TS & t = *W.tasks[pick(W.tasks)];
      if(!p.has(&t))
      {
        op("add", t.id);
        p.pb->add(t.tr);
        p.ts.push_back(&t);
      }
    }
    else if(c < 13)
    {
      Problem & p = *ps[pick(ps)];
      if(p.ts.size())
      {
        size_t k = pick(p.ts);
        op("remove", p.ts[k]->id);
        p.pb->remove(*p.ts[k]->tr);
        p.ts.erase(p.ts.begin() + static_cast<long>(k));
      }
    }
    else if(c < 15)
    {
      TS & t = *W.tasks[pick(W.tasks)];
      if(t.p == 0)
        continue;
      switch(r.i(0, 2))
      {
        case 0:
          changeWeight(r, t);
          break;
        case 1:
          changeAnisotropicWeight(r, t);
          break;
        default:
          t.p = r.i(1, maxP);
          t.tr->requirements.priorityLevel().value(t.p);
      }
      op("requirement", t.id);
      count("requirement_changes");
    }
    else if(c == 15)
      W.evolve();
    else if(c == 16)
      task();
    else if(c == 17)
    {
      if(ps.size() > 1 && r.b(0.6))
      {
        size_t i = pick(ps);
        op("drop problem", i);
        ps.erase(ps.begin() + static_cast<long>(i));
      }
      else if(ps.size() < 4)
        problem();
    }
    else if(c == 18)
    {
      if(ss.size() > 1 && r.b(0.6))
      {
        size_t i = pick(ss);
        op("drop scheme", i);
        ss.erase(ss.begin() + static_cast<long>(i));
        bigs.erase(bigs.begin() + static_cast<long>(i));
      }
      else if(ss.size() < 4)
        scheme();
    }
    else
    {
      // another problem on the same variables, short-lived
      LinearizedControlProblem o;
      std::vector<TS *> ts;
      for(auto & t : W.tasks)
        if(r.b())
        {
          o.add(t->tr);
          ts.push_back(t.get());
        }
      ss[pick(ss)]->check(o, W, ts, "S09");
    }
  }
  nontrivial();
}
#endif

#if FOCUS == 8
std::atomic<long> reportedCase{-1};
extern "C" __attribute__((visibility("default"), used)) void __tsan_on_report(void *)
{
  char b[64];
  int n = snprintf(b, sizeof(b), "\nVT-RACE case=%ld\n", reportedCase.load());
  (void)!write(2, b, static_cast<size_t>(n));
}

// ---------------------------------------------------------------------------------------------------------------- N01
/** Barrier that every thread leaves at the same time, several times per workload, to force overlaps. */
struct Job
{
  int workload;
  uint64_t seed;
  State st;
  bool bad = false;
  std::string key, msg;
  std::vector<int> ids;
};

void runJob(Job & j, std::atomic<int> & ready, int n)
{
  threadState() = &j.st;
  Rng r(j.seed);
  ready.fetch_add(1);
  while(ready.load() < n)
    std::this_thread::yield();
  try
  {
    switch(j.workload)
    {
      case 0:
        caseStatic(r);
        break;
      case 1:
        caseHistory(r);
        break;
      case 2:
        caseSubstitution(r);
        break;
      case 3:
        caseHierarchy(r);
        break;
      case 4:
        caseHierarchySubstitution(r);
        break;
      case 5:
        caseIsolation(r);
        break;
      default:
        caseRefusal(r);
    }
  }
  catch(const Violation & v)
  {
    j.bad = true;
    j.key = v.key;
    j.msg = v.msg;
  }
  catch(const std::exception & e)
  {
    j.bad = true;
    j.key = "unexpected-exception";
    j.msg = e.what();
  }
  threadState() = nullptr;
}

void caseThreads(Rng & r)
{
  reportedCase = S().caseId;
  static std::ofstream null("/dev/null");
  static std::streambuf * b = std::cout.rdbuf(null.rdbuf());
  int n = r.i(2, 4);
  std::vector<std::unique_ptr<Job>> jobs;
  bool log = r.b();
  if(log)
    graph::internal::Logger::logger().enable();
  else
    graph::internal::Logger::logger().disable();
  const_cast<graph::internal::Log &>(graph::internal::Logger::logger().log()) = {};
  for(int i = 0; i < n; ++i)
  {
    jobs.push_back(std::make_unique<Job>());
    jobs.back()->workload = r.i(0, 6);
    jobs.back()->seed = r.next();
    op("job ", jobs.back()->workload);
  }
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for(auto & j : jobs)
    th.emplace_back([&, p = j.get()] { runJob(*p, ready, n); });
  for(auto & t : th)
    t.join();
  std::cout.rdbuf(b);
  for(auto & j : jobs)
  {
    for(auto & c : j->st.counters)
      S().counters[c.first] += c.second;
    count("threads");
    mix(j->st.sig);
  }
  for(auto & j : jobs)
    if(j->bad)
    {
      // is it due to the other threads?
      std::atomic<int> one{0};
      Job alone{j->workload, j->seed};
      runJob(alone, one, 1);
      if(alone.bad)
      {
        count("other_properties"); // wrong alone as well
        continue;
      }
      fail("N01-" + j->key, j->msg + " (workload " + std::to_string(j->workload) + ", right when alone)");
    }
  count(log ? "logged" : "not_logged");
  nontrivial();
}
#endif

#if FOCUS == 9
// ---------------------------------------------------------------------------------------------------------------- M02
void caseLifetime(Rng & r)
{
  Silence q;
  struct Life
  {
    std::weak_ptr<void> f, tr;
  };
  struct Held
  {
    int id;
    TaskWithRequirements * tr;
  };
  struct Pb
  {
    std::unique_ptr<LinearizedControlProblem> pb = std::make_unique<LinearizedControlProblem>();
    std::vector<Held> ts;
    std::map<Scheme *, std::set<int>> data; // what the schemes might use
    std::set<int> graph;                    // what the updates might use
    std::vector<std::pair<int, std::weak_ptr<void>>> cs;
    bool uses(int id) const
    {
      for(auto & t : ts)
        if(t.id == id)
          return true;
      for(auto & d : data)
        if(d.second.count(id))
          return true;
      return graph.count(id) != 0;
    }
  };
  std::vector<Life> lives;
  std::vector<std::weak_ptr<void>> vars, logs;
  {
    auto W = std::make_unique<World>(r, r.i(2, 4), 3, r.b(0.3) ? 0.4 : 0.);
    for(auto & v : W->P.base)
      vars.push_back(v);
    for(auto & v : W->all)
      vars.push_back(v);
    std::vector<std::unique_ptr<Pb>> ps;
    std::vector<std::unique_ptr<Scheme>> ss;
    std::vector<std::weak_ptr<void>> orphans; // constraints of problems that are gone
    auto task = [&]() {
      W->tasks.push_back(W->make(1, 0.5, 0.4));
      TS & k = *W->tasks.back();
      k.tr = std::make_shared<TaskWithRequirements>(W->task(k), W->requirements(k));
      k.id = static_cast<int>(lives.size());
      lives.push_back({k.tr->task.function(), k.tr});
      for(auto & v : k.vars)
        vars.push_back(v.v);
    };
    auto pick = [&](auto & v) { return static_cast<size_t>(r.i(0, static_cast<int>(v.size()) - 1)); };
    auto add = [&](Pb & p, TS & k) {
      for(auto & t : p.ts)
        if(t.id == k.id)
          return;
      p.pb->add(k.tr);
      p.ts.push_back({k.id, k.tr.get()});
      p.cs.push_back({k.id, p.pb->constraint(*k.tr)});
    };
    auto scheme = [&]() {
      ss.push_back(std::make_unique<Scheme>(r, r.b(0.4)));
      logs.push_back(ss.back()->l);
      logs.push_back(ss.back()->h);
    };
    auto check = [&]() {
      std::set<int> user;
      if(W)
        for(auto & t : W->tasks)
          user.insert(t->id);
      for(int i = 0; i < static_cast<int>(lives.size()); ++i)
      {
        bool used = user.count(i) != 0;
        for(auto & p : ps)
          used |= p->uses(i);
        auto & l = lives[static_cast<size_t>(i)];
        if(used)
          continue;
        VT_CHECK(l.f.expired(), "M02-function", "the function of task ", i, " is kept by nothing known");
        VT_CHECK(l.tr.expired(), "M02-task", "task ", i, " is kept by nothing known");
        count("released");
      }
      for(auto & p : ps)
        for(auto & c : p->cs)
          if(!p->uses(c.first))
          {
            VT_CHECK(c.second.expired(), "M02-constraint", "the constraint of task ", c.first, " is kept by nothing known");
            count("constraints_released");
          }
      for(auto & c : orphans)
        VT_CHECK(c.expired(), "M02-constraint", "kept after its problem");
    };
    auto dropProblem = [&](size_t i) {
      for(auto & c : ps[i]->cs)
        orphans.push_back(c.second);
      ps.erase(ps.begin() + static_cast<long>(i));
      op("drop problem");
    };
    int n = r.i(1, 5);
    for(int i = 0; i < n; ++i)
      task();
    ps.push_back(std::make_unique<Pb>());
    scheme();
    int steps = r.i(4, 24);
    for(int it = 0; it < steps; ++it)
    {
      int c = r.i(0, 19);
      if(c < 6)
      {
        Pb & p = *ps[pick(ps)];
        auto & s = *ss[pick(ss)];
        s.solve(*p.pb);
        std::set<int> ids;
        for(auto & t : p.ts)
          ids.insert(t.id);
        p.data[&s] = p.graph = ids;
        op("solve ", ids.size());
      }
      else if(c < 10)
      {
        if(W->tasks.empty())
          task();
        Pb & p = *ps[pick(ps)];
        add(p, *W->tasks[pick(W->tasks)]);
        op("add ");
      }
      else if(c < 13)
      {
        Pb & p = *ps[pick(ps)];
        if(p.ts.size())
        {
          size_t k = pick(p.ts);
          op("remove ", p.ts[k].id);
          p.pb->remove(*p.ts[k].tr);
          p.ts.erase(p.ts.begin() + static_cast<long>(k));
        }
      }
      else if(c < 15)
      {
        if(W->tasks.size())
        {
          size_t k = pick(W->tasks);
          op("drop task ", W->tasks[k]->id);
          W->tasks.erase(W->tasks.begin() + static_cast<long>(k));
        }
      }
      else if(c == 15)
        task();
      else if(c == 16)
      {
        if(ps.size() > 1 && r.b())
          dropProblem(pick(ps));
        else if(ps.size() < 4)
          ps.push_back(std::make_unique<Pb>());
      }
      else if(c == 17)
      {
        if(ss.size() > 1 && r.b())
        {
          // what is kept for a scheme that is gone is not released: it is the problem that owns it
          size_t i = pick(ss);
          for(auto & p : ps)
          {
            auto d = p->data.find(ss[i].get());
            if(d != p->data.end())
            {
              std::set<int> & g = p->data[nullptr];
              g.insert(d->second.begin(), d->second.end());
              p->data.erase(d);
            }
          }
          ss.erase(ss.begin() + static_cast<long>(i));
          op("drop scheme");
        }
        else if(ss.size() < 4)
          scheme();
      }
      else if(c == 18)
      {
        // solving everything forgets everything that was removed
        for(auto & p : ps)
          for(auto & s : ss)
            if(p->data.count(s.get()))
            {
              s->solve(*p->pb);
              std::set<int> ids;
              for(auto & t : p->ts)
                ids.insert(t.id);
              p->data[s.get()] = p->graph = ids;
            }
        op("solve all");
      }
      else
      {
        Pb & p = *ps[pick(ps)];
        p.pb->update();
        std::set<int> ids;
        for(auto & t : p.ts)
          ids.insert(t.id);
        p.graph = ids;
        op("update");
      }
      check();
    }
    // end, in any order
    while(ps.size() || ss.size() || W)
    {
      switch(r.i(0, 3))
      {
        case 0:
          if(ps.size())
            dropProblem(pick(ps));
          break;
        case 1:
          if(ss.size())
          {
            size_t i = pick(ss);
            for(auto & p : ps)
              for(auto & t : lives)
                if(p->data.count(ss[i].get()))
                  p->data[nullptr].insert(static_cast<int>(&t - lives.data()));
            ss.erase(ss.begin() + static_cast<long>(i));
          }
          break;
        case 2:
          if(W && r.b())
            W.reset();
          break;
        default:
          if(W && W->tasks.size())
            W->tasks.erase(W->tasks.begin() + static_cast<long>(pick(W->tasks)));
      }
      check();
    }
  }
  for(auto & l : lives)
    VT_CHECK(l.f.expired() && l.tr.expired(), "M02-task", "kept after everything");
  for(auto & v : vars)
    VT_CHECK(v.expired(), "M02-variable", "kept after everything");
  for(auto & v : logs)
    VT_CHECK(v.expired(), "M02-solver", "kept after everything");
  count("variables_released", static_cast<long>(vars.size()));
  count("solvers_released", static_cast<long>(logs.size()));
  nontrivial();
}

/** The memory in use is the same before and after a workload. It is run once first, for what is initialized at first use. */
void caseBalance(Rng & r)
{
  uint64_t seed = r.next();
  int w = r.i(0, 6);
  op("workload ", w, " ", seed);
  auto & L = graph::internal::Logger::logger();
  L.disable(); // it grows by design
  size_t used[2];
  for(int k = 0; k < 2; ++k)
  {
    size_t s0 = __sanitizer_get_current_allocated_bytes();
    {
      State st;
      threadState() = &st;
      Rng g(seed);
      try
      {
        switch(w)
        {
          case 0:
            caseStatic(g);
            break;
          case 1:
            caseHistory(g);
            break;
          case 2:
            caseSubstitution(g);
            break;
          case 3:
            caseHierarchy(g);
            break;
          case 4:
            caseHierarchySubstitution(g);
            break;
          case 5:
            caseIsolation(g);
            break;
          default:
            caseRefusal(g);
        }
      }
      catch(const Violation &)
      {
        w = -1;
      }
      catch(...)
      {
        threadState() = nullptr;
        L.enable();
        throw;
      }
      threadState() = nullptr;
    }
    used[k] = __sanitizer_get_current_allocated_bytes() - s0;
    if(w < 0)
    {
      L.enable();
      count("other_properties");
      nontrivial();
      return;
    }
  }
  L.enable();
  VT_CHECK(used[1] == 0, "M02-leak", "workload ", w, " leaves ", static_cast<long>(used[1]), " bytes allocated");
  count("balanced");
  nontrivial();
}
#endif
#if FOCUS == 10
// ---------------------------------------------------------------------------------------------------------------- K03
struct Hinted
{
  std::unique_ptr<hint::Substitution> s;
  std::vector<TS *> ts;
  std::vector<PV> xs;
};

/** A problem and what was added to it. */
struct Book
{
  LinearizedControlProblem * lpb = nullptr; // nullptr for a non-linear problem
  std::unique_ptr<LinearizedControlProblem> l;
  std::unique_ptr<ControlProblem> n;
  std::vector<TS *> in;
  std::vector<std::unique_ptr<Hinted>> hints;
  bool has(const TS * k) const { return std::find(in.begin(), in.end(), k) != in.end(); }
  ControlProblem & pb() { return l ? static_cast<ControlProblem &>(*l) : *n; }
};

void checkBook(World & W, Book & B, const std::vector<Book> & all)
{
  auto & pb = B.pb();
  VT_CHECK(pb.size() == static_cast<int>(B.in.size()), "K03-size", pb.size(), " instead of ", B.in.size());
  VT_CHECK(pb.tasks().size() == B.in.size(), "K03-size", pb.tasks().size());
  for(size_t i = 0; i < B.in.size(); ++i)
    VT_CHECK(pb.tasks()[i].get() == B.in[i]->tr.get(), "K03-order", "task ", i, " of the problem is not the one expected");
  count("books");
  if(!B.l)
    return;
  auto & lp = *B.l;
  VT_CHECK(lp.constraintMap().size() == B.in.size(), "K03-map", lp.constraintMap().size());
  auto cs = lp.constraints();
  VT_CHECK(cs.size() == B.in.size(), "K03-constraints", cs.size());
  std::set<const void *> seen;
  for(auto & c : cs)
    VT_CHECK(seen.insert(c.constraint.get()).second, "K03-constraints", "same constraint twice");
  std::vector<bool> active(static_cast<size_t>(W.N), false), got = active;
  for(auto k : B.in)
  {
    auto c = lp.constraint(*k->tr);
    VT_CHECK(c && seen.count(c.get()), "K03-constraint", "constraint of a task not in the list");
    VT_CHECK(lp.constraintNoThrow(*k->tr) == c, "K03-constraint", "not the same constraint");
    auto & cr = lp.constraintWithRequirements(*k->tr);
    auto o = lp.constraintWithRequirementsNoThrow(*k->tr);
    VT_CHECK(o && &o->get() == &cr && cr.constraint == c, "K03-constraint", "not the same constraint with requirements");
    VT_CHECK(cr.requirements.get() == &k->tr->requirements, "K03-requirements", "requirements of another task");
    VT_CHECK(cr.bound == (k->diag > 0), "K03-bound", "task ", k->id, " bound ", cr.bound);
    VT_CHECK(c->type() == k->t && c->rhs() == constraint::RHS::AS_GIVEN && c->size() == k->m(), "K03-kind", "task ", k->id);
    VT_CHECK(c->variables().numberOfVariables() == static_cast<int>(k->vars.size()), "K03-constraint-variables",
             c->variables().numberOfVariables());
    for(auto & v : k->vars)
    {
      VT_CHECK(c->variables().contains(*v.v), "K03-constraint-variables", v.str());
      for(int i = 0; i < v.p.n; ++i)
        active[static_cast<size_t>(W.col(v) + i)] = true;
    }
  }
  for(auto & other : all)
    for(auto k : other.in)
      if(!B.has(k))
      {
        VT_CHECK(throws([&] { lp.constraint(*k->tr); }), "K03-stranger", "constraint of a task which is not in the problem");
        VT_CHECK(!lp.constraintNoThrow(*k->tr), "K03-stranger", "constraint of a task which is not in the problem");
        VT_CHECK(!lp.constraintWithRequirementsNoThrow(*k->tr), "K03-stranger", "constraint of a task which is not in the problem");
        count("strangers");
      }
  auto X = lp.variables();
  int total = 0;
  for(auto & x : X)
  {
    Range rg = x->getMappingIn(W.all);
    total += x->size();
    for(int i = 0; i < x->size(); ++i)
      got[static_cast<size_t>(rg.start + i)] = true;
  }
  VT_CHECK(got == active, "K03-variables", "not the variables of the tasks");
  VT_CHECK(total == std::count(got.begin(), got.end(), true), "K03-variables", "coordinates several times in the variables");
  auto & ss = lp.substitutions();
  for(auto k : B.in)
  {
    bool used = false;
    for(auto & h : B.hints)
      used = used || std::find(h->ts.begin(), h->ts.end(), k) != h->ts.end();
    VT_CHECK(ss.uses(lp.constraint(*k->tr)) == used, "K03-substitutions", "constraint of task ", k->id, used ? " not" : "",
             " used for a substitution");
  }
  VT_CHECK(ss.substitutions().size() == B.hints.size(), "K03-substitutions", ss.substitutions().size());
}

/** Update the problem and check everything was evaluated, once, and nothing else. */
void updateBook(World & W, Book & B, const std::vector<Book> & all)
{
  op("update");
  std::set<QF *> mine, others;
  for(auto & o : all)
    for(auto k : o.in)
      if(k->qf)
        (&o == &B && B.l ? mine : others).insert(k->qf.get());
  for(auto & k : W.tasks)
    if(k->qf)
      others.insert(k->qf.get());
  for(auto f : mine)
    others.erase(f);
  for(auto f : mine)
    f->poison();
  for(auto s : {&mine, &others})
    for(auto f : *s)
      f->nVal = f->nJac = 0;
  B.pb().update();
  for(auto f : mine)
    VT_CHECK(f->nVal == 1 && f->nJac == 1, "K03-once", "value computed ", f->nVal, " times, jacobian ", f->nJac);
  for(auto f : others)
    VT_CHECK(f->nVal == 0 && f->nJac == 0, "K03-useless", "function of a task not in the problem computed");
  count("updates");
  if(!B.l)
    return;
  std::vector<int> sub(static_cast<size_t>(W.N), 0), expected = sub;
  for(auto & x : B.l->substitutions().variables())
  {
    Range rg = x->getMappingIn(W.all);
    for(int i = 0; i < x->size(); ++i)
      ++sub[static_cast<size_t>(rg.start + i)];
  }
  for(auto & h : B.hints)
    for(auto & x : h->xs)
      for(int i = 0; i < x.p.n; ++i)
        ++expected[static_cast<size_t>(W.col(x) + i)];
  VT_CHECK(sub == expected, "K03-substituted", "not the substituted variables expected");
  for(auto k : B.in)
  {
    auto c = B.l->constraint(*k->tr);
    std::vector<MatrixXd> M;
    VectorXd l, u;
    k->linear(M, l, u);
    for(size_t q = 0; q < M.size(); ++q)
      VT_CHECK(close(MatrixXd(c->jacobian(*k->vars[q].v)), M[q], 1e-10), "K03-jacobian", "task ", k->id);
    if(k->t == Type::EQUAL)
      VT_CHECK(close(VectorXd(c->e()), l, 1e-10), "K03-rhs", "task ", k->id, show(c->e()), show(l));
    else
    {
      if(k->t != Type::LOWER_THAN)
        VT_CHECK(close(VectorXd(c->l()), l, 1e-10), "K03-rhs", "task ", k->id, show(c->l()), show(l));
      if(k->t != Type::GREATER_THAN)
        VT_CHECK(close(VectorXd(c->u()), u, 1e-10), "K03-rhs", "task ", k->id, show(c->u()), show(u));
    }
    count("constraints_read");
  }
}

void caseBook(Rng & r)
{
  World W(r, r.i(1, 4), 3, r.b(0.3) ? 0.4 : 0.);
  W.anyLevel = true;
  std::vector<Book> books(static_cast<size_t>(r.i(1, 3)));
  for(auto & b : books)
    if(r.b(0.8))
      b.l = std::make_unique<LinearizedControlProblem>();
    else
      b.n = std::make_unique<ControlProblem>();
  auto fresh = [&]() -> TS & {
    std::vector<TS *> q;
    for(auto & k : W.tasks)
      if(k->qf)
        q.push_back(k.get());
    if(!q.empty() && r.b(0.25)) // another task on the same function
    {
      auto t = std::make_unique<TS>(*r.pick(q));
      t->id = W.next++;
      t->kp = r.d(0.5, 3);
      t->p = r.i(0, 2);
      t->t = static_cast<Type>(r.i(0, 3));
      t->tr.reset();
      W.feasible(*t);
      op("same function, task", t->id, TN[int(t->t)]);
      W.tasks.push_back(std::move(t));
      count("shared_functions");
    }
    else
      W.tasks.push_back(W.make(2, 0.4, 0.5));
    return *W.tasks.back();
  };
  int steps = r.i(4, 25);
  for(int s = 0; s < steps; ++s)
  {
    size_t bi = static_cast<size_t>(r.i(0, static_cast<int>(books.size()) - 1));
    Book & B = books[bi];
    op("problem", bi);
    auto usedBy = [&](const TS * k) {
      Hinted * h = nullptr;
      for(auto & x : B.hints)
        if(std::find(x->ts.begin(), x->ts.end(), k) != x->ts.end())
          h = x.get();
      return h;
    };
    auto dropHint = [&](Hinted * h) {
      B.hints.erase(std::find_if(B.hints.begin(), B.hints.end(), [&](auto & p) { return p.get() == h; }));
    };
    switch(r.i(0, 11))
    {
      case 0:
      case 1:
      case 2: {
        TS & k = fresh();
        op("add", k.id);
        if(B.l)
          k.tr = B.l->add(W.task(k), W.requirements(k));
        else
          k.tr = B.n->add(W.task(k), W.requirements(k));
        B.in.push_back(&k);
        break;
      }
      case 3: { // made before, or in another problem
        TS * k = nullptr;
        for(auto & t : W.tasks)
          if(t->tr && !B.has(t.get()) && (!k || r.b()))
            k = t.get();
        if(!k)
        {
          k = &fresh();
          k->tr = std::make_shared<TaskWithRequirements>(W.task(*k), W.requirements(*k));
        }
        op("add tr", k->id);
        if(B.l)
          B.l->add(k->tr);
        else
          B.n->add(k->tr);
        B.in.push_back(k);
        count("shared_tasks");
        break;
      }
      case 4:
      case 5: {
        if(B.in.empty())
          break;
        size_t i = static_cast<size_t>(r.i(0, static_cast<int>(B.in.size()) - 1));
        TS * k = B.in[i];
        Hinted * h = usedBy(k);
        bool last = true;
        for(auto & o : books)
          last = last && (&o == &B || !o.has(k));
        bool lone = last && !h && r.b();
        op("remove", k->id, lone ? " only owned by the problem" : "");
        std::weak_ptr<TaskWithRequirements> w = k->tr;
        TaskWithRequirements & t = *k->tr;
        if(lone)
          k->tr.reset();
        bool refused = throws([&] {
          if(B.l)
            B.l->remove(t);
          else
            B.n->remove(t);
        });
        VT_CHECK(refused == (h && h->ts.size() > 1), "K03-removal", "refused ", refused);
        if(refused)
        {
          count("removals_refused");
          break;
        }
        if(h)
        {
          dropHint(h);
          count("substituted_tasks_removed");
        }
        B.in.erase(B.in.begin() + static_cast<long>(i));
        if(lone)
          VT_CHECK(w.expired(), "K03-kept", "a removed task is still owned by the problem");
        break;
      }
      case 6: { // not there
        TS * k = nullptr;
        for(auto & t : W.tasks)
          if(t->tr && !B.has(t.get()))
            k = t.get();
        if(!k)
          break;
        op("remove stranger", k->id);
        if(B.l)
          B.l->remove(*k->tr);
        else
          B.n->remove(*k->tr);
        break;
      }
      case 7: {
        if(!B.l)
          break;
        op("impossible task");
        auto q = W.pick(2, W.pSub, 1);
        if(q.empty())
          break;
        int m = r.i(1, 3);
        auto f = std::make_shared<QF>(r, m, q);
        VectorXd z = VectorXd::Zero(m);
        bool refused = throws([&] { B.l->add(Task(f, Type::EQUAL, task_dynamics::None(), z)); });
        VT_CHECK(refused, "K03-refusal", "non-linear task without dynamics accepted");
        count("refused");
        break;
      }
      case 8: { // substitution
        if(!B.l)
          break;
        std::vector<TS *> c;
        for(auto k : B.in)
        {
          bool ok = k->diag > 0 && k->t == Type::EQUAL;
          for(auto & h : B.hints)
            for(auto & x : h->xs)
              ok = ok && !x.p.intersects(k->vars[0].p);
          for(auto y : c)
            ok = ok && !y->vars[0].p.intersects(k->vars[0].p);
          if(ok)
            c.push_back(k);
        }
        if(c.empty())
        {
          // something to substitute, for the next time
          W.tasks.push_back(W.make(1, 0., 1.));
          TS & k = *W.tasks.back();
          k.t = Type::EQUAL;
          k.tr = B.l->add(W.task(k), W.requirements(k));
          B.in.push_back(&k);
          break;
        }
        r.shuffle(c);
        if(c.size() > 1)
          c.resize(r.b() ? 2 : 1);
        auto h = std::make_unique<Hinted>();
        std::vector<LinearConstraintPtr> cs;
        std::vector<VariablePtr> xs;
        for(auto k : c)
        {
          op("substitute by", k->id);
          h->ts.push_back(k);
          h->xs.push_back(k->vars[0]);
          cs.push_back(B.l->constraint(*k->tr));
          xs.push_back(k->vars[0].v);
        }
        if(cs.size() == 1)
          h->s = std::make_unique<hint::Substitution>(cs[0], xs[0]);
        else
          h->s = std::make_unique<hint::Substitution>(cs, xs);
        B.l->add(*h->s);
        B.hints.push_back(std::move(h));
        count("substitutions");
        break;
      }
      case 9: {
        if(B.hints.empty())
          break;
        Hinted * h = r.pick(B.hints).get();
        op("remove substitution");
        if(h->ts.size() == 1 && r.b())
          B.l->removeSubstitutionFor(*B.l->constraint(*h->ts[0]->tr));
        else
          B.l->remove(*h->s);
        dropHint(h);
        break;
      }
      case 10: {
        if(books.size() >= 4 || !B.n)
        {
          W.evolve();
          break;
        }
        op("linearized copy");
        Book C;
        C.l = std::make_unique<LinearizedControlProblem>(*B.n);
        C.in = B.in;
        books.push_back(std::move(C));
        checkBook(W, books.back(), books);
        count("copies");
        continue;
      }
      default:
        if(books.size() > 1 && r.b(0.2))
        {
          op("destroy");
          books.erase(books.begin() + static_cast<long>(bi));
          continue;
        }
        W.evolve();
    }
    checkBook(W, B, books);
    if(r.b(0.4))
      updateBook(W, B, books);
  }
  for(auto & B : books)
  {
    checkBook(W, B, books);
    updateBook(W, B, books);
  }
  nontrivial();
}
#endif
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
#if FOCUS == 1
    caseStatic(r);
#elif FOCUS == 2
    caseHistory(r);
#elif FOCUS == 3
    caseSubstitution(r);
#elif FOCUS == 7
    try
    {
      int w = r.i(0, 6);
      forbid = w != 2 && w != 4; // the elimination of variables allocates
      switch(w)
      {
        case 0:
          caseStatic(r);
          break;
        case 1:
          caseHistory(r);
          break;
        case 2:
          caseSubstitution(r);
          break;
        case 3:
          caseHierarchy(r);
          break;
        case 4:
          caseHierarchySubstitution(r);
          break;
        case 5:
          caseIsolation(r);
          break;
        default:
          caseRefusal(r);
      }
    }
    catch(const Violation & v)
    {
      if(v.key.compare(0, 3, "M01") == 0)
        throw;
      count("other_properties");
      nontrivial();
    }
#elif FOCUS == 11
    const double k = r.d(0, 1.02);
    if(k > 1)
      wrapped::checkOptions(r);
    else if(k < 0.3)
      caseStatic(r);
    else if(k < 0.65)
      caseHistory(r);
    else if(k < 0.75)
      caseSubstitution(r);
    else if(k < 0.95)
      caseHierarchy(r);
    else
      caseHierarchySubstitution(r);
#elif FOCUS == 10
    caseBook(r);
#elif FOCUS == 9
    if(r.b(0.4))
      caseLifetime(r);
    else
      caseBalance(r);
#elif FOCUS == 8
    caseThreads(r);
#elif FOCUS == 6
    caseIsolation(r);
#elif FOCUS == 5
    caseRefusal(r);
#elif FOCUS == 4
    const double k = r.d(0, 1);
    if(k < 0.5)
      caseHierarchy(r);
    else if(k < 0.6)
      caseRebuild<true>(r);
    else if(k < 0.65)
      caseRebuild<false>(r);
    else
      caseHierarchySubstitution(r);
#endif
  });
}

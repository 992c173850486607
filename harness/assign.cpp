// Assignments used directly: what is written in the target, read with the target's conventions, is the source read with
// its own conventions (FOCUS 1: all conventions, refusals; FOCUS 2: histories of updates).
#include "pool.h"
#include <tvm/Range.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/scheme/internal/helpers.h>

using namespace tvm;
using namespace vt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using scheme::internal::Assignment;
using scheme::internal::AssignmentTarget;
using MP = tvm::internal::MatrixProperties;
using Req = requirements::SolvingRequirementsWithCallbacks;

namespace
{
const double BIG = constant::big_number;
const double SENT = 777.25;
const std::vector<Type> TYPES{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
const char * tn(Type t)
{
  switch(t)
  {
    case Type::EQUAL:
      return "=";
    case Type::GREATER_THAN:
      return ">=";
    case Type::LOWER_THAN:
      return "<=";
    default:
      return "<<";
  }
}
const char * rn(RHS r) { return r == RHS::ZERO ? "0" : r == RHS::AS_GIVEN ? "+" : "-"; }

/** One row l <= a.x <= u. */
struct Row
{
  VectorXd a;
  double l, u;
  bool eq = false;
};

/** The constraint to copy, and what it means. */
struct Source
{
  std::vector<PV> vars;
  std::vector<MatrixXd> M;
  std::vector<MP> props;
  int m;
  Type type;
  RHS rhs;
  VectorXd b, l, u; // as given
  std::shared_ptr<BasicLinearConstraint> c;

  Source(const std::vector<PV> & v, int rows, Type t, RHS r_) : vars(v), m(rows), type(t), rhs(r_) {}
  void create()
  {
    std::vector<VariablePtr> x;
    std::vector<MatrixConstRef> A;
    for(auto & v : vars)
      x.push_back(v.v);
    for(auto & a : M)
      A.push_back(a);
    if(type == Type::DOUBLE_SIDED)
      c = std::make_shared<BasicLinearConstraint>(A, x, l, u, rhs);
    else if(rhs == RHS::ZERO)
      c = std::make_shared<BasicLinearConstraint>(A, x, type);
    else
      c = std::make_shared<BasicLinearConstraint>(A, x, b, type, rhs);
    for(size_t i = 0; i < M.size(); ++i)
      c->A(M[i], *vars[i].v, props[i]);
  }
  void randomRhs(Rng & r)
  {
    b = r.vec(m, -3, 3);
    l = r.vec(m, -3, 0);
    u = r.vec(m, 0, 3);
    if(r.b(0.1))
      b[r.i(0, m - 1)] = 0;
    if(rhs == RHS::OPPOSITE)
    {
      l = -l;
      u = -u;
    }
  }
  void pushRhs()
  {
    if(rhs == RHS::ZERO)
      return;
    if(type == Type::DOUBLE_SIDED)
    {
      c->l(l);
      c->u(u);
    }
    else
      c->b(b);
  }
  /** Meaning, in the layout given by the columns of each variable. */
  std::vector<Row> rows(const std::vector<int> & cols, int n) const
  {
    std::vector<Row> R;
    double s = rhs == RHS::OPPOSITE ? -1 : 1;
    for(int i = 0; i < m; ++i)
    {
      Row w;
      w.a = VectorXd::Zero(n);
      for(size_t q = 0; q < M.size(); ++q)
        w.a.segment(cols[q], M[q].cols()) = M[q].row(i);
      double v = rhs == RHS::ZERO || type == Type::DOUBLE_SIDED ? 0 : s * b[i];
      w.l = -HUGE_VAL;
      w.u = HUGE_VAL;
      switch(type)
      {
        case Type::EQUAL:
          w.l = w.u = v;
          w.eq = true;
          break;
        case Type::GREATER_THAN:
          w.l = v;
          break;
        case Type::LOWER_THAN:
          w.u = v;
          break;
        default:
          w.l = s * l[i];
          w.u = s * u[i];
      }
      R.push_back(w);
    }
    return R;
  }
};

/** Memory in which a target lies. */
struct Mem
{
  MatrixXd A;
  VectorXd b, l, u;
  Mem(int m, int n) : A(m, n), b(m), l(m), u(m)
  {
    reset();
  }
  void reset()
  {
    A.setConstant(SENT);
    b.setConstant(SENT);
    l.setConstant(SENT);
    u.setConstant(SENT);
  }
};

double openTo(double v)
{
  if(v >= 1e-3 * BIG)
    return HUGE_VAL;
  if(v <= -1e-3 * BIG)
    return -HUGE_VAL;
  return v;
}

struct World
{
  Rng & r;
  Pool pool;
  std::vector<PV> V; // disjoint parts making the variable vector
  std::unique_ptr<Source> src;
  Type tt;
  RHS tr;
  std::shared_ptr<Range> range;
  std::unique_ptr<Mem> mem;
  std::shared_ptr<Req> req;
  double w = 1, s = 1;
  VectorXd aw;
  std::unique_ptr<Assignment> a;

  std::unique_ptr<hint::internal::Substitutions> subs; // nullptr when there is no substitution
  std::vector<std::unique_ptr<Source>> eqs; // equalities x + ... used for the substitutions, x being the first variable
  std::vector<PV> xs; // substituted variables
  std::vector<PV> zs; // additional variables

  explicit World(Rng & rr) : r(rr), pool(rr, rr.i(1, 4), 3) {}

  /** Coordinates of a variable appearing in a substitution. */
  Part partOf(const VariablePtr & x) const
  {
    VariablePtr s = x;
    int t = 0;
    while(s->isSubvariable())
    {
      t += s->subvariableRange().start;
      s = s->superVariable();
    }
    for(size_t i = 0; i < pool.base.size(); ++i)
      if(pool.base[i] == s)
        return {static_cast<int>(i), 0, t, x->size()};
    VT_CHECK(false, "substitution-variable", "substitution by an unknown variable ", x->name());
    return {};
  }
  /** Columns of a part all of whose coordinates are in V. -1 for other coordinates. */
  std::vector<int> coords(const Part & p) const
  {
    std::vector<int> c(static_cast<size_t>(p.n), -1);
    int n = 0;
    for(auto & v : V)
    {
      for(int k = 0; k < p.n; ++k)
        if(v.p.contains({p.base, 0, p.t + k, 1}))
          c[static_cast<size_t>(k)] = n + p.t + k - v.p.t;
      n += v.p.n;
    }
    return c;
  }
  /** Substituted pieces appearing in the source, with their expression. */
  std::vector<std::pair<Part, const function::BasicLinearFunction *>> usedSubs() const
  {
    std::vector<std::pair<Part, const function::BasicLinearFunction *>> u;
    if(subs)
      for(size_t i = 0; i < subs->variables().size(); ++i)
      {
        Part x = partOf(subs->variables()[i]);
        for(auto & v : src->vars)
          if(v.p.contains(x))
            u.emplace_back(x, subs->variableSubstitutions()[i].get());
      }
    return u;
  }
  /** Substitute one or two variables (or part of them). V keeps the others. */
  void makeSubstitutions()
  {
    subs = std::make_unique<hint::internal::Substitutions>();
    int want = r.i(1, 2);
    for(int k = 0; k < want && V.size() > 1; ++k)
    {
      PV x = V.back();
      V.pop_back();
      // columns first: x, then other variables, possibly the previous substituted ones
      int m = x.p.n > 1 && r.b(0.25) ? r.i(1, x.p.n - 1) : x.p.n;
      std::vector<PV> vars{x};
      for(auto & v : V)
        if(r.b(0.6))
          vars.push_back(r.b(0.3) ? pool.subOf(v) : v);
      for(auto & v : xs)
        if(r.b(0.4))
          vars.push_back(v);
      RHS rh = r.pick(std::vector<RHS>{RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE});
      auto e = std::make_unique<Source>(vars, m, Type::EQUAL, rh);
      for(auto & v : vars)
      {
        e->M.push_back(r.mat(m, v.p.n));
        e->props.push_back(MP());
      }
      if(m == x.p.n)
      {
        switch(r.i(0, 3))
        {
          case 0:
            e->props[0] = MP(MP::IDENTITY);
            break;
          case 1:
            e->props[0] = MP(MP::MINUS_IDENTITY);
            break;
          case 2:
            e->props[0] = MP(MP::DIAGONAL, MP::Invertibility(true));
            break;
          default:;
        }
      }
      drawX(*e);
      e->randomRhs(r);
      e->create();
      xs.push_back(x);
      op("subst ", x.str(), " m", m, rn(rh), " by ", vars.size() - 1);
      eqs.push_back(std::move(e));
    }
    for(size_t k = 0; k < eqs.size(); ++k)
      subs->add(hint::Substitution(eqs[k]->c, xs[k].v));
    subs->finalize();
    for(auto & z : subs->additionalVariables())
    {
      pool.sizes.push_back(z->size());
      pool.base.push_back(z);
      zs.push_back(pool.whole(static_cast<int>(pool.base.size()) - 1));
      V.push_back(zs.back());
    }
    r.shuffle(V);
    subs->updateSubstitutions();
    count("substitutions", static_cast<long>(eqs.size()));
  }
  void drawX(Source & e)
  {
    int m = e.m, n = e.vars[0].p.n;
    auto & A = e.M[0];
    const auto & p = e.props[0];
    if(p.isIdentity())
      A = MatrixXd::Identity(m, m);
    else if(p.isMinusIdentity())
      A = -MatrixXd::Identity(m, m);
    else if(p.isDiagonal())
    {
      VectorXd d = r.vec(m, 0.5, 2);
      for(int i = 0; i < m; ++i)
        if(r.b())
          d[i] = -d[i];
      A = d.asDiagonal();
    }
    else
    {
      A = r.mat(m, n, -0.3, 0.3);
      A.leftCols(m) += (r.b() ? 1.5 : -1.5) * MatrixXd::Identity(m, m);
    }
  }

  static int total(const std::vector<PV> & V)
  {
    int n = 0;
    for(auto & v : V)
      n += v.p.n;
    return n;
  }
  static VariableVector vv(const std::vector<PV> & V)
  {
    VariableVector x;
    for(auto & v : V)
      x.add(v.v);
    return x;
  }
  int colOf(const PV & x) const
  {
    int n = 0;
    for(auto & v : V)
    {
      if(v.p.contains(x.p))
        return n + x.p.t - v.p.t;
      n += v.p.n;
    }
    return -1;
  }
  void layout()
  {
    V.clear();
    for(size_t i = 0; i < pool.base.size(); ++i)
    {
      int n = pool.sizes[i];
      if(n > 1 && r.b(0.2))
      {
        int k = r.i(1, n - 1);
        V.push_back(pool.sub(static_cast<int>(i), 0, 0, k));
        V.push_back(pool.sub(static_cast<int>(i), 0, k, n - k));
      }
      else
        V.push_back(pool.whole(static_cast<int>(i)));
    }
    r.shuffle(V);
  }
  void makeSource(Type t, RHS rh)
  {
    std::vector<PV> vars;
    for(auto & x : xs)
      if(r.b(0.8))
        vars.push_back(x);
    for(auto & v : vars)
    {
      // the other part of the variable may come along
      bool cut = v.p.n != pool.sizes[static_cast<size_t>(v.p.base)];
      for(auto & o : xs)
        cut = cut && (o.p == v.p || o.p.base != v.p.base);
      if(cut && r.b(0.6))
        v = pool.whole(v.p.base);
    }
    const size_t nx = vars.size();
    for(auto & v : V)
    {
      bool already = false;
      for(size_t i = 0; i < nx; ++i)
        already = already || vars[i].p.intersects(v.p);
      if(!already && (vars.empty() || r.b(0.5)))
        vars.push_back(r.b(0.3) ? pool.subOf(v) : v);
    }
    r.shuffle(vars);
    int m = r.i(1, 3);
    src = std::make_unique<Source>(vars, m, t, rh);
    for(auto & v : vars)
    {
      MatrixXd A = r.mat(m, v.p.n);
      MP p;
      if(m == v.p.n && r.b(0.4))
      {
        switch(r.i(0, 3))
        {
          case 0:
            A = MatrixXd::Identity(m, m);
            p = MP(MP::IDENTITY);
            break;
          case 1:
            A = -MatrixXd::Identity(m, m);
            p = MP(MP::MINUS_IDENTITY);
            break;
          default:
            A = r.vec(m).asDiagonal();
            p = MP(MP::DIAGONAL);
        }
      }
      else if(r.b(0.1))
      {
        A.setZero();
        p = MP(MP::ZERO);
      }
      src->M.push_back(A);
      src->props.push_back(p);
    }
    src->randomRhs(r);
    src->create();
  }
  void newMem(int rows, int cols) { mem = std::make_unique<Mem>(rows, cols); }
  AssignmentTarget target()
  {
    if(tt == Type::DOUBLE_SIDED)
      return AssignmentTarget(range, mem->A, mem->l, mem->u, tr);
    if(tr == RHS::ZERO)
      return AssignmentTarget(range, MatrixRef(mem->A), tt);
    return AssignmentTarget(range, mem->A, mem->b, tt, tr);
  }
  double factor(int i) const { return s * std::sqrt(w * (aw.size() ? aw[i] : 1)); }

  void compare(const char * what)
  {
    const auto & S = *src;
    // rows over the variables of the source, then over those of the target
    std::vector<int> cols;
    int ns = 0;
    for(auto & v : S.vars)
    {
      cols.push_back(ns);
      ns += v.p.n;
    }
    int n = total(V);
    auto exp = S.rows(cols, ns);
    std::vector<bool> mine(static_cast<size_t>(n), false); // columns that the assignment has to write
    std::vector<VectorXd> full(exp.size(), VectorXd::Zero(n));
    const auto pieces = usedSubs();
    for(size_t q = 0; q < S.vars.size(); ++q)
    {
      auto c = coords(S.vars[q].p);
      for(size_t k = 0; k < c.size(); ++k)
        if(c[k] >= 0)
        {
          mine[static_cast<size_t>(c[k])] = true;
          for(size_t i = 0; i < exp.size(); ++i)
            full[i][c[k]] += exp[i].a[cols[q] + static_cast<int>(k)];
        }
      for(auto & xf : pieces)
      {
        const Part & x = xf.first;
        if(!S.vars[q].p.contains(x))
          continue;
        const auto & f = *xf.second;
        int at = cols[q] + x.t - S.vars[q].p.t;
        for(auto & y : f.variables())
        {
          auto cy = coords(partOf(y));
          MatrixXd J = f.jacobian(*y);
          for(size_t k = 0; k < cy.size(); ++k)
          {
            VT_CHECK(cy[k] >= 0, "substitution-variable", "substitution by a variable which is not in the problem");
            mine[static_cast<size_t>(cy[k])] = true;
            for(size_t i = 0; i < exp.size(); ++i)
              full[i][cy[k]] += exp[i].a.segment(at, x.n).dot(J.col(static_cast<int>(k)));
          }
        }
        for(size_t i = 0; i < exp.size(); ++i)
        {
          double d = exp[i].a.segment(at, x.n).dot(VectorXd(f.b()));
          exp[i].l -= d;
          exp[i].u -= d;
        }
        count("substituted");
      }
    }
    for(size_t i = 0; i < exp.size(); ++i)
      exp[i].a = full[i];
    for(int i = 0; i < S.m; ++i)
    {
      auto & e = exp[static_cast<size_t>(i)];
      e.a *= factor(i);
      e.l *= factor(i);
      e.u *= factor(i);
    }
    for(Eigen::Index i = 0; i < mem->A.rows(); ++i)
    {
      bool in = range->contains(static_cast<int>(i));
      for(Eigen::Index j = 0; j < mem->A.cols(); ++j)
      {
        bool untouched = mem->A(i, j) == SENT;
        if(!in)
          VT_CHECK(untouched, "outside", what, ": matrix written outside of the rows of the target, row ", i);
        else if(j >= n || !mine[static_cast<size_t>(j)])
          VT_CHECK(untouched || mem->A(i, j) == 0, "outside", what, ": column of another variable written, col ", j);
      }
      if(!in)
        VT_CHECK(mem->b[i] == SENT && mem->l[i] == SENT && mem->u[i] == SENT, "outside", what,
                 ": vector written outside of the rows of the target, row ", i);
    }
    auto row = [&](int i) {
      Row R;
      R.a = VectorXd::Zero(n);
      for(int j = 0; j < n; ++j)
        if(mine[static_cast<size_t>(j)])
          R.a[j] = mem->A(i, j);
      double t = tr == RHS::OPPOSITE ? -1 : 1;
      double v = tr == RHS::ZERO ? 0 : t * mem->b[i];
      R.l = -HUGE_VAL;
      R.u = HUGE_VAL;
      if(tt == Type::EQUAL)
      {
        R.l = R.u = v;
        R.eq = true;
      }
      else if(tt == Type::GREATER_THAN)
        R.l = v;
      else if(tt == Type::LOWER_THAN)
        R.u = v;
      else
      {
        R.l = openTo(t * mem->l[i]);
        R.u = openTo(t * mem->u[i]);
      }
      return R;
    };
    auto same = [&](const Row & x, const Row & y, double sg) {
      double l = sg > 0 ? y.l : -y.u, u = sg > 0 ? y.u : -y.l;
      return close(x.a, sg * y.a, 1e-10) && close(x.l, l, 1e-10) && close(x.u, u, 1e-10);
    };
    auto text = [&](const Row & x) { return str(x.l, " <= ", show(x.a.transpose()), " <= ", x.u); };
    bool half = S.type == Type::DOUBLE_SIDED && tt != Type::DOUBLE_SIDED;
    if(!half)
    {
      for(int i = 0; i < S.m; ++i)
      {
        Row R = row(range->start + i);
        const Row & e = exp[static_cast<size_t>(i)];
        VT_CHECK(same(R, e, 1) || same(R, e, -1), "meaning", what, ": row ", i, " expected ", text(e), " got ", text(R));
      }
    }
    else
    {
      std::vector<Row> left;
      for(int i = 0; i < 2 * S.m; ++i)
        left.push_back(row(range->start + i));
      for(auto & e : exp)
        for(int side = 0; side < 2; ++side)
        {
          Row h = e;
          (side ? h.l : h.u) = side ? -HUGE_VAL : HUGE_VAL;
          bool found = false;
          for(size_t k = 0; k < left.size() && !found; ++k)
            if(same(left[k], h, 1) || same(left[k], h, -1))
            {
              left.erase(left.begin() + static_cast<long>(k));
              found = true;
            }
          VT_CHECK(found, "meaning", what, ": no row of the target stands for ", text(h));
        }
    }
    count("rows_compared", S.m);
    mix(static_cast<uint64_t>(S.type) * 16 + static_cast<uint64_t>(tt));
  }

  bool compatible() const
  {
    if(src->type == Type::EQUAL ? (tt != Type::EQUAL && tt != Type::DOUBLE_SIDED) : tt == Type::EQUAL)
      return false;
    return !(src->rhs != RHS::ZERO && tr == RHS::ZERO);
  }
  void requirements()
  {
    if(r.b(0.25))
      return;
    req = std::make_shared<Req>();
    if(r.b())
    {
      w = r.d(0.2, 4);
      req->weight() = w;
    }
    if(r.b(0.4))
    {
      aw = r.vec(src->m, 0.2, 4);
      req->anisotropicWeight() = aw;
    }
    if(r.b(0.3))
      s = r.d(0.1, 10);
  }
  bool build()
  {
    layout();
    if(r.b(0.4) && V.size() > 1)
      makeSubstitutions();
    tt = r.pick(TYPES);
    Type st = r.pick(TYPES);
    if(r.b(0.8)) // mostly compatible
    {
      if(st == Type::EQUAL)
        tt = r.b() ? Type::EQUAL : Type::DOUBLE_SIDED;
      else if(tt == Type::EQUAL)
        tt = r.pick(std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
    }
    auto conv = [&](Type t) {
      return t == Type::DOUBLE_SIDED || r.b(0.8) ? (r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE) : RHS::ZERO;
    };
    RHS sr = conv(st);
    tr = conv(tt);
    if(tr == RHS::ZERO && r.b(0.7) && st != Type::DOUBLE_SIDED)
      sr = RHS::ZERO;
    makeSource(st, sr);
    int dim = src->m;
    if(st == Type::DOUBLE_SIDED && tt != Type::DOUBLE_SIDED)
      dim *= 2;
    bool badSize = FOCUS == 1 && r.b(0.05);
    if(badSize)
      dim += r.b() || dim == 1 ? 1 : -1;
    int before = r.i(0, 2);
    range = std::make_shared<Range>(before, dim);
    newMem(before + dim + r.i(0, 2), total(V));
    requirements();
    bool badWeight = FOCUS == 1 && aw.size() && r.b(0.1);
    if(badWeight)
      req->anisotropicWeight() = r.vec(src->m + (r.b() || src->m == 1 ? 1 : -1), 0.2, 4);
    bool badNorm = FOCUS == 1 && req && r.b(0.05);
    if(badNorm)
      req->violationEvaluation().value(r.b() ? requirements::ViolationEvaluationType::L1
                                             : requirements::ViolationEvaluationType::LINF);
    op("src ", tn(st), rn(sr), " m", src->m, " target ", tn(tt), rn(tr), " rows ", before, "+", dim, " w", w, " aw",
       aw.size(), " s", s, req ? "" : " noreq");
    bool ok = compatible() && !badSize && !badWeight && !badNorm;
    // constant terms of the substitutions need a right-hand side
    bool either = false;
    if(subs && tr == RHS::ZERO)
    {
      for(auto & e : eqs)
        either = either || e->rhs != RHS::ZERO;
      for(auto & x : usedSubs())
        if(!x.second->b().isZero(0))
          ok = false;
    }
    bool refused =
        throws([&] { a = std::make_unique<Assignment>(src->c, req, target(), vv(V), subs.get(), s); });
    VT_CHECK(refused == !ok || (either && ok), "refusal", "source ", tn(st), rn(sr), " target ", tn(tt), rn(tr), " bad size ", badSize,
             " bad weight ", badWeight, " bad norm ", badNorm, refused ? " was refused" : " was accepted");
    if(refused)
    {
      count("refused");
      return false;
    }
    if(!req)
      s = a->changeScalarWeightIsAllowed() ? s : 1; // without requirement, no weight at all
    return true;
  }
  void run(const char * what)
  {
    mem->reset();
    a->run();
    compare(what);
  }
  void step()
  {
    switch(r.i(0, 6))
    {
      case 0: {
        op("data");
        for(size_t q = 0; q < src->M.size(); ++q)
        {
          if(src->props[q].isIdentity() || src->props[q].isMinusIdentity() || src->props[q].isZero())
            continue;
          if(src->props[q].isDiagonal())
            src->M[q] = r.vec(src->m).asDiagonal();
          else
            src->M[q] = r.mat(src->m, src->vars[q].p.n);
          src->c->A(src->M[q], *src->vars[q].v, src->props[q]);
        }
        src->randomRhs(r);
        src->pushRhs();
        if(subs && r.b(0.7))
        {
          for(auto & e : eqs)
          {
            drawX(*e);
            for(size_t q = 1; q < e->M.size(); ++q)
              e->M[q] = r.mat(e->m, e->vars[q].p.n);
            for(size_t q = 0; q < e->M.size(); ++q)
              if(!e->props[q].isIdentity() && !e->props[q].isMinusIdentity())
                e->c->A(e->M[q], *e->vars[q].v, e->props[q]);
            e->randomRhs(r);
            e->pushRhs();
          }
          subs->updateSubstitutions();
        }
        count("data_changes");
        run("data changed");
        break;
      }
      case 1: {
        op("target");
        auto old = std::move(mem); // still alive: must not be written anymore
        int before = r.i(0, 3), dim = range->dim;
        bool keepRange = r.b(0.3);
        if(!keepRange)
          *range = Range(before, dim);
        newMem(range->start + dim + r.i(0, 2), total(V));
        change(*a);
        a->onUpdatedTarget();
        Mem copy = *old;
        count("target_changes");
        run("target changed");
        VT_CHECK(copy.A == old->A && copy.b == old->b && copy.l == old->l && copy.u == old->u, "old-target",
                 "the previous target is still written");
        break;
      }
      case 2: {
        op("range");
        int room = static_cast<int>(mem->A.rows()) - range->dim;
        a->target().range() = Range(r.i(0, room), range->dim);
        a->onUpdatedTarget();
        count("target_changes");
        run("range changed");
        break;
      }
      case 3: {
        // same variables, other order (and possibly other cut as long as variables of the source stay whole)
        op("mapping");
        std::vector<PV> W = V;
        r.shuffle(W);
        V = W;
        bool both = r.b();
        if(both)
        {
          newMem(static_cast<int>(mem->A.rows()), total(V));
          a->onUpdatedMapping(vv(V), false);
          change(*a);
          a->onUpdatedTarget();
        }
        else
          a->onUpdatedMapping(vv(V), true);
        count("mapping_changes");
        run("mapping changed");
        break;
      }
      case 4: {
        // variables come and go
        op("variables");
        std::vector<PV> W;
        for(auto & v : V)
        {
          bool used = false;
          for(auto & x : src->vars)
            used = used || v.p.intersects(x.p);
          for(auto & x : usedSubs())
            for(auto & y : x.second->variables())
              used = used || v.p.intersects(partOf(y));
          if(used || r.b(0.6))
            W.push_back(v);
        }
        if(r.b(0.5))
        {
          int n = r.i(1, 2);
          pool.sizes.push_back(n);
          pool.base.push_back(Space(n).createVariable("extra"));
          pool.base.back()->value(VectorXd::Zero(n));
          W.push_back(pool.whole(static_cast<int>(pool.base.size()) - 1));
        }
        r.shuffle(W);
        V = W;
        newMem(static_cast<int>(mem->A.rows()), total(V));
        a->onUpdatedMapping(vv(V), false);
        change(*a);
        a->onUpdatedTarget();
        count("mapping_changes");
        run("variables changed");
        break;
      }
      case 5: {
        if(!req)
          break;
        op("weights");
        bool sc = r.b(), ve = r.b();
        bool refuse = false;
        if(sc)
        {
          double nw = a->changeScalarWeightIsAllowed() || r.b(0.3) ? r.d(0.2, 4) : 1;
          req->weight() = nw;
          refuse = !a->changeScalarWeightIsAllowed() && nw != 1;
          if(!refuse)
            w = nw;
        }
        if(ve && !refuse)
        {
          if(a->changeVectorWeightIsAllowed())
          {
            aw = r.vec(src->m, 0.2, 4);
            req->anisotropicWeight() = aw;
          }
          else if(r.b(0.3))
          {
            req->anisotropicWeight() = r.vec(src->m, 1.5, 4);
            refuse = true;
          }
        }
        bool refused = throws([&] { a->onUpdateWeights(sc, ve); });
        VT_CHECK(refused == refuse, "weights", refuse ? "impossible change of weight accepted"
                                                      : "possible change of weight refused");
        if(refused)
        {
          a.reset();
          return;
        }
        count("weight_changes");
        run("weights changed");
        break;
      }
      default: {
        if(r.b())
        {
          op("move");
          auto b = std::make_unique<Assignment>(std::move(*a));
          a = std::move(b);
          run("moved");
        }
        else
        {
          op("reprocess");
          r.shuffle(V);
          a = std::make_unique<Assignment>(Assignment::reprocess(*a, vv(V), subs.get()));
          run("reprocessed");
        }
        count("moves");
      }
    }
  }
  void change(Assignment & as)
  {
    if(tt == Type::DOUBLE_SIDED)
      as.target().changeData(mem->A, mem->l, mem->u);
    else if(tr == RHS::ZERO)
      as.target().setA(mem->A);
    else
      as.target().changeData(MatrixRef(mem->A), mem->b);
  }
};

void general(Rng & r)
{
  World w(r);
  if(!w.build())
    return;
  nontrivial();
  w.run("first run");
  if(FOCUS == 1)
    return;
  int n = r.i(2, 10);
  for(int k = 0; k < n && w.a; ++k)
    w.step();
}

// ---------------------------------------------------------------------------------------------- bounds
struct BoundSrc
{
  std::unique_ptr<Source> s;
  int kind; // 0 identity, 1 minus identity, 2 diagonal >0, 3 diagonal <0, 4 diagonal of any sign
  std::unique_ptr<Assignment> a;
  void draw(Rng & r)
  {
    int n = s->m;
    MatrixXd A = MatrixXd::Identity(n, n);
    if(kind == 1)
      A = -A;
    if(kind >= 2)
    {
      VectorXd d = r.vec(n, 0.3, 3);
      if(kind == 3)
        d = -d;
      if(kind == 4)
        for(int i = 0; i < n; ++i)
          if(r.b())
            d[i] = -d[i];
      A = d.asDiagonal();
    }
    s->M = {A};
  }
};

void bounds(Rng & r)
{
  int n = r.i(1, 4);
  VariablePtr base = Space(n).createVariable("x");
  base->value(VectorXd::Zero(n));
  PV x{base, {0, 0, 0, n}};
  if(n > 1 && r.b(0.3))
  {
    int t = r.i(0, n - 1), k = r.i(1, n - t);
    x = {base->subvariable(Space(k), "y", Space(t)), {0, 0, t, k}};
  }
  int k = x.p.n;
  bool dbl = r.b(0.6);
  Type tt = dbl ? Type::DOUBLE_SIDED : (r.b() ? Type::GREATER_THAN : Type::LOWER_THAN);
  auto range = std::make_shared<Range>(r.i(0, 2), k);
  int rows = range->end() + r.i(0, 2);
  auto mem = std::make_unique<Mem>(rows, 1);
  int nb = r.i(1, 3);
  std::vector<BoundSrc> B;
  auto target = [&]() {
    if(dbl)
      return AssignmentTarget(range, VectorRef(mem->l), mem->u);
    return AssignmentTarget(range, VectorRef(mem->b), tt);
  };
  op("bounds ", k, " target ", tn(tt));
  for(int i = 0; i < nb; ++i)
  {
    BoundSrc b;
    Type st = dbl ? r.pick(TYPES) : r.b(0.85) ? (r.b() ? Type::GREATER_THAN : Type::LOWER_THAN) : r.pick(TYPES);
    RHS sr = st == Type::DOUBLE_SIDED || r.b(0.8) ? (r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE) : RHS::ZERO;
    b.s = std::make_unique<Source>(std::vector<PV>{x}, k, st, sr);
    b.kind = r.i(0, 4);
    if(!dbl && r.b(0.8))
      b.kind = st == tt ? (r.b() ? 0 : 2) : (r.b() ? 1 : 3);
    b.draw(r);
    static const MP P[] = {MP(MP::IDENTITY), MP(MP::MINUS_IDENTITY), MP(MP::DIAGONAL, MP::POSITIVE_DEFINITE),
                           MP(MP::DIAGONAL, MP::NEGATIVE_DEFINITE),
                           MP(MP::DIAGONAL, MP::Invertibility(true))};
    b.s->props = {P[b.kind]};
    bool plain = r.b(0.04); // no known structure: not a bound
    if(plain)
      b.s->props = {MP()};
    b.s->randomRhs(r);
    b.s->create();
    op("b ", tn(st), rn(sr), " kind", b.kind, plain ? " plain" : "");
    bool ok = !plain;
    if(!dbl && ok)
    {
      if(st == Type::EQUAL || st == Type::DOUBLE_SIDED)
        ok = false;
      else if(st == tt)
        ok = b.kind == 0 || b.kind == 2;
      else
        ok = b.kind == 1 || b.kind == 3;
    }
    bool refused = throws([&] { b.a = std::make_unique<Assignment>(b.s->c, target(), x.v, B.empty()); });
    VT_CHECK(refused == !ok, "refusal", "bound ", tn(st), rn(sr), " kind ", b.kind, " to ", tn(tt),
             refused ? " was refused" : " was accepted");
    if(!refused)
      B.push_back(std::move(b));
    else
      count("refused");
  }
  if(B.empty())
    return;
  nontrivial();
  auto runAll = [&](const char * what) {
    mem->b.setConstant(SENT);
    mem->l.setConstant(SENT);
    mem->u.setConstant(SENT);
    for(auto & b : B)
      b.a->run();
    for(int i = 0; i < rows; ++i)
    {
      if(!range->contains(i))
      {
        VT_CHECK(mem->b[i] == SENT && mem->l[i] == SENT && mem->u[i] == SENT, "outside", what,
                 ": written outside of the rows of the target, row ", i);
        continue;
      }
      int q = i - range->start;
      double lo = -HUGE_VAL, up = HUGE_VAL;
      for(auto & b : B)
      {
        auto R = b.s->rows({0}, k)[static_cast<size_t>(q)];
        double d = R.a[q], l = R.l / d, u = R.u / d;
        if(d < 0)
          std::swap(l, u);
        lo = std::max(lo, l);
        up = std::min(up, u);
      }
      double gl = tt == Type::GREATER_THAN ? mem->b[i] : dbl ? openTo(mem->l[i]) : -HUGE_VAL;
      double gu = tt == Type::LOWER_THAN ? mem->b[i] : dbl ? openTo(mem->u[i]) : HUGE_VAL;
      VT_CHECK(close(gl, lo, 1e-10) && close(gu, up, 1e-10), "bound", what, ": row ", q, " expected [", lo, ",", up,
               "] got [", gl, ",", gu, "]");
      count("bounds_compared");
    }
  };
  runAll("first run");
  int steps = FOCUS == 1 ? 0 : r.i(1, 8);
  for(int t = 0; t < steps; ++t)
  {
    switch(r.i(0, 4))
    {
      case 0:
      case 1:
        op("data");
        for(auto & b : B)
        {
          if(b.kind >= 2)
          {
            b.draw(r);
            b.s->c->A(b.s->M[0], *x.v, b.s->props[0]);
          }
          b.s->randomRhs(r);
          b.s->pushRhs();
        }
        count("data_changes");
        break;
      case 2: {
        op("target");
        int room = rows - k;
        *range = Range(r.i(0, room), k);
        if(r.b())
        {
          mem = std::make_unique<Mem>(rows, 1);
          for(auto & b : B)
          {
            if(dbl)
              b.a->target().changeData(VectorRef(mem->l), mem->u);
            else
              b.a->target().setb(mem->b);
          }
        }
        for(auto & b : B)
          b.a->onUpdatedTarget();
        count("target_changes");
        break;
      }
      case 3: {
        // drop a bound: the new first one is reprocessed as first
        if(B.size() < 2)
          break;
        op("drop");
        size_t i = static_cast<size_t>(r.i(0, static_cast<int>(B.size()) - 1));
        B.erase(B.begin() + static_cast<long>(i));
        if(i == 0)
          B[0].a = std::make_unique<Assignment>(Assignment::reprocess(*B[0].a, x.v, true));
        count("target_changes");
        break;
      }
      default: {
        op("move");
        auto & b = r.pick(B);
        auto & bb = const_cast<BoundSrc &>(b);
        bb.a = std::make_unique<Assignment>(std::move(*bb.a));
        count("moves");
      }
    }
    runAll("after change");
  }
}

// ---------------------------------------------------------------------------------------------- what is a bound
/** A matrix with its declared properties. dg: declared diagonal and invertible, sg: declared definite. */
struct Declared
{
  MatrixXd A;
  MP p;
  bool dg;
  int sg;
  static Declared random(Rng & r, int n)
  {
    switch(r.i(0, 7))
    {
      case 0:
        return {MatrixXd::Identity(n, n), MP(MP::IDENTITY), true, 1};
      case 1:
        return {-MatrixXd::Identity(n, n), MP(MP::MINUS_IDENTITY), true, -1};
      case 2:
        return {MatrixXd(r.vec(n, 0.3, 3).asDiagonal()), MP(MP::DIAGONAL, MP::POSITIVE_DEFINITE), true, 1};
      case 3:
        return {MatrixXd(r.vec(n, -3, -0.3).asDiagonal()), MP(MP::DIAGONAL, MP::NEGATIVE_DEFINITE), true, -1};
      case 4: {
        VectorXd d = r.vec(n, 0.3, 3);
        d[r.i(0, n - 1)] *= -1;
        return {MatrixXd(d.asDiagonal()), MP(MP::DIAGONAL, MP::Invertibility(true)), true, 0};
      }
      case 5:
        return {MatrixXd(r.vec(n, 0, 3).asDiagonal()), MP(MP::DIAGONAL), false, 0};
      case 6:
        return {MatrixXd(MatrixXd::Identity(n, n) + 0.1 * r.mat(n, n)), MP(MP::GENERAL, MP::Invertibility(true)), false,
                0};
      default:
        return {r.mat(n, n), MP(), false, 0};
    }
  }
};

void predicates(Rng & r)
{
  using namespace tvm::scheme::internal;
  int n = r.i(1, 3);
  VariablePtr x0 = Space(n).createVariable("x0"), x1 = Space(n).createVariable("x1"), y0 = Space(n).createVariable("y0"),
       y1 = Space(n).createVariable("y1"), big = Space(n + 1).createVariable("big");
  auto part = big->subvariable(Space(n), "part", Space(r.i(0, 1)));
  // the constraint
  Declared D = Declared::random(r, n);
  int who = r.i(0, 3); // x0, x1, y0, part
  VariablePtr v = who == 0 ? x0 : who == 1 ? x1 : who == 2 ? y0 : part;
  bool two = r.b(0.1);
  Type t = r.pick(TYPES);
  RHS rh = r.pick(std::vector<RHS>{RHS::AS_GIVEN, RHS::OPPOSITE});
  std::vector<MatrixConstRef> A{D.A};
  std::vector<VariablePtr> X{v};
  MatrixXd other = r.mat(n, n);
  if(two)
  {
    A.push_back(other);
    X.push_back(y1);
  }
  VectorXd lo = r.vec(n, -3, -1), up = r.vec(n, 1, 3);
  auto c = t == Type::DOUBLE_SIDED ? std::make_shared<BasicLinearConstraint>(A, X, lo, up, rh)
                                   : std::make_shared<BasicLinearConstraint>(A, X, lo, t, rh);
  c->A(D.A, *v, D.p);
  // the substitutions
  std::vector<VariablePtr> x;
  std::vector<std::shared_ptr<function::BasicLinearFunction>> f;
  std::vector<Declared> S;
  std::vector<int> nv;
  auto substitute = [&](const VariablePtr & xi) {
    S.push_back(Declared::random(r, xi->size()));
    nv.push_back(r.b(0.8) ? 1 : r.i(0, 1) * 2);
    std::vector<MatrixConstRef> B;
    std::vector<VariablePtr> Y;
    VariablePtr a = Space(xi->size()).createVariable("a"), b = Space(xi->size()).createVariable("b");
    if(nv.back() > 0)
    {
      B.push_back(S.back().A);
      Y.push_back(a);
    }
    if(nv.back() > 1)
    {
      B.push_back(S.back().A);
      Y.push_back(b);
    }
    std::shared_ptr<function::BasicLinearFunction> g;
    VectorXd rhs = r.vec(xi->size());
    if(Y.empty())
      g = std::make_shared<function::BasicLinearFunction>(xi->size(), std::vector<VariablePtr>{});
    else
      g = std::make_shared<function::BasicLinearFunction>(B, Y, rhs);
    for(auto & yi : Y)
      g->A(S.back().A, *yi, S.back().p);
    x.push_back(xi);
    f.push_back(g);
  };
  std::vector<VariablePtr> cand{x0, x1, r.b() ? big : part};
  r.shuffle(cand);
  int ns = r.i(0, 3);
  for(int i = 0; i < ns; ++i)
    substitute(cand[static_cast<size_t>(i)]);
  op("predicate on ", v->name(), " ", tn(t), rn(rh), " decl ", D.dg, D.sg, two ? " two" : "");
  for(size_t i = 0; i < x.size(); ++i)
    op(x[i]->name(), " decl ", S[i].dg, S[i].sg, " vars ", nv[i]);

  bool plain = D.dg && !two;
  bool e = plain;
  int sign = D.sg;
  bool replaced = false;
  for(size_t i = 0; i < x.size(); ++i)
  {
    if(x[i] == v)
    {
      e = e && nv[i] == 1 && S[i].dg;
      sign *= S[i].sg;
      replaced = true;
    }
    else if(x[i]->intersects(*v))
      e = false;
  }
  VT_CHECK(isBound(c) == plain, "is-bound", "without substitution, expected ", plain);
  VT_CHECK(isBound(c, x, f) == e, "is-bound", "with substitutions, expected ", e);
  if(e)
    nontrivial();
  for(Type tt : TYPES)
  {
    bool g = e;
    if(tt == Type::EQUAL)
      g = false;
    else if(tt != Type::DOUBLE_SIDED)
    {
      if(t == Type::EQUAL || t == Type::DOUBLE_SIDED)
        g = false;
      else
        g = g && sign == (t == tt ? 1 : -1);
    }
    bool is = canBeUsedAsBound(c, x, f, tt);
    // the sign of a product of matrices may be out of reach of the deduction of properties
    bool conservative = tt != Type::DOUBLE_SIDED && replaced && !is;
    VT_CHECK(is == g || conservative, "can-be-bound", "constraint ", tn(t), " to target ", tn(tt), " expected ", g);
    count("predicates");
  }
}

void oneCase(Rng & r)
{
  if(FOCUS == 1 && r.b(0.15))
  {
    predicates(r);
    return;
  }
  if(r.b(0.3))
    bounds(r);
  else
    general(r);
}
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, oneCase); }

// Substitutions used directly: the substituted variables, the functions giving them, the additional variables and the
// remaining equations describe exactly the solutions of the original equations.
#include "pool.h"
#include "lsq.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/hint/internal/Substitutions.h>
#include <Eigen/Dense>

using namespace tvm;
using namespace vt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using MP = tvm::internal::MatrixProperties;

namespace
{
struct Eq
{
  std::vector<PV> vars;
  std::vector<MatrixXd> M;
  VectorXd rhs; // of A x = rhs
  RHS conv;
  std::shared_ptr<BasicLinearConstraint> c;
  int m() const { return static_cast<int>(M[0].rows()); }
};
struct Sub
{
  std::vector<std::unique_ptr<Eq>> eqs;
  std::vector<PV> xs;
  int rank = 0, m = 0;
  bool deficient = false;
  bool fixedPattern = false;
  std::unique_ptr<hint::Substitution> s;
};

int rankOf(const MatrixXd & A)
{
  if(A.size() == 0)
    return 0;
  Eigen::JacobiSVD<MatrixXd> svd(A);
  int k = 0;
  for(Eigen::Index i = 0; i < svd.singularValues().size(); ++i)
    if(svd.singularValues()[i] > 1e-8)
      ++k;
  return k;
}

struct World
{
  Rng & r;
  Pool pool;
  std::vector<int> offset;
  int N = 0;
  VectorXd X0;          // satisfies every equation (not those with RHS ZERO if regular)
  bool regular = false; // no rank deficiency
  std::vector<std::unique_ptr<Sub>> subs;
  hint::internal::Substitutions S;

  bool many = false; // many small substitutions depending on each other

  explicit World(Rng & rr, bool manySubs) : r(rr), pool(rr, manySubs ? rr.i(6, 9) : rr.i(2, 5), manySubs ? 2 : 4), many(manySubs)
  {
    for(int s : pool.sizes)
    {
      offset.push_back(N);
      N += s;
    }
    X0 = r.vec(N);
  }
  int col(const PV & v) const { return offset[static_cast<size_t>(v.p.base)] + v.p.t; }
  bool taken(const PV & v) const
  {
    for(auto & s : subs)
      for(auto & x : s->xs)
        if(x.p.intersects(v.p))
          return true;
    return false;
  }
  bool granular(const PV & v) const
  {
    for(auto & s : subs)
      for(auto & x : s->xs)
        if(x.p.intersects(v.p) && !v.p.contains(x.p))
          return false;
    return true;
  }
  MatrixXd square(int n)
  {
    MatrixXd Q = Eigen::HouseholderQR<MatrixXd>(r.mat(n, n)).householderQ();
    return Q * r.vec(n, 0.5, 2).asDiagonal();
  }
  MatrixXd ranked(int m, int n, int k) { return square(m).leftCols(k) * square(n).topRows(k); }
  void setRhs(Eq & e)
  {
    e.rhs = VectorXd::Zero(e.m());
    if(e.conv == RHS::ZERO)
      return;
    for(size_t q = 0; q < e.M.size(); ++q)
      e.rhs += e.M[q] * X0.segment(col(e.vars[q]), e.vars[q].p.n);
    if(e.conv == RHS::AS_GIVEN)
      e.c->b(e.rhs);
    if(e.conv == RHS::OPPOSITE)
      e.c->b(-e.rhs);
  }
  /** The equation, homogeneous if conv is ZERO: then X0 must be zero. */
  std::unique_ptr<Eq> equation(const std::vector<PV> & vars, const std::vector<MatrixXd> & M, const MP * p)
  {
    auto e = std::make_unique<Eq>();
    e->vars = vars;
    e->M = M;
    e->conv = X0.isZero() || regular ? r.pick(std::vector<RHS>{RHS::ZERO, RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE})
                          : r.pick(std::vector<RHS>{RHS::AS_GIVEN, RHS::OPPOSITE});
    std::vector<VariablePtr> v;
    std::vector<MatrixConstRef> A;
    for(auto & x : vars)
      v.push_back(x.v);
    for(auto & a : e->M)
      A.push_back(a);
    if(e->conv == RHS::ZERO)
      e->c = std::make_shared<BasicLinearConstraint>(A, v, constraint::Type::EQUAL);
    else
      e->c = std::make_shared<BasicLinearConstraint>(A, v, VectorXd::Zero(e->m()), constraint::Type::EQUAL, e->conv);
    if(p)
      e->c->A(e->M[0], *vars[0].v, *p);
    setRhs(*e);
    op("eq m", e->m(), " rhs", static_cast<int>(e->conv));
    for(auto & x : vars)
      op(x.str());
    return e;
  }
  bool addSub()
  {
    std::vector<PV> xs;
    int nx = r.b(many ? 0.5 : 0.7) ? 1 : 2;
    int n = 0;
    for(int i = 0; i < nx; ++i)
    {
      PV v = pool.any(0, 0.4);
      bool ok = !taken(v);
      for(auto & x : xs)
        ok = ok && !x.p.intersects(v.p);
      for(auto & s : subs) // existing equations must be fine enough
        for(auto & e : s->eqs)
          for(auto & y : e->vars)
            ok = ok && (!y.p.intersects(v.p) || y.p.contains(v.p));
      if(ok)
      {
        xs.push_back(v);
        n += v.p.n;
      }
    }
    if(xs.empty())
      return false;
    auto s = std::make_unique<Sub>();
    s->xs = xs;
    // the variables of the equations: the x, possibly through a larger variable, and others
    std::vector<PV> host = xs;
    bool hosted = false;
    if(r.b(0.3) && xs.size() == 1)
    {
      PV w = pool.whole(xs[0].p.base);
      bool ok = true;
      for(auto & q : subs)
        for(auto & x : q->xs)
          ok = ok && !(x.p.intersects(w.p) && !w.p.contains(x.p));
      if(ok)
      {
        host[0] = w;
        hosted = !(w.p == xs[0].p);
      }
    }
    auto others = [&](double pTaken) {
      std::vector<PV> ys;
      int k = many ? r.i(1, 3) : r.i(0, 2);
      for(int i = 0; i < k; ++i)
      {
        PV v = pool.any(0, many ? 0.1 : 0.3);
        bool ok = granular(v) && (!taken(v) || r.b(pTaken));
        for(auto & y : ys)
          ok = ok && !y.p.intersects(v.p);
        for(auto & y : host)
          ok = ok && !y.p.intersects(v.p);
        for(auto & y : xs)
          ok = ok && !y.p.intersects(v.p);
        if(ok)
          ys.push_back(v);
      }
      return ys;
    };
    auto build = [&](const MatrixXd & A, double pTaken, const MP * p) {
      std::vector<PV> vars;
      std::vector<MatrixXd> M;
      int c = 0;
      for(size_t i = 0; i < host.size(); ++i)
      {
        vars.push_back(host[i]);
        MatrixXd H = 0.5 * r.mat(static_cast<int>(A.rows()), host[i].p.n);
        H.middleCols(xs[i].p.t - host[i].p.t, xs[i].p.n) = A.middleCols(c, xs[i].p.n);
        c += xs[i].p.n;
        M.push_back(H);
      }
      for(auto & y : others(pTaken))
      {
        vars.push_back(y);
        M.push_back(0.5 * r.mat(static_cast<int>(A.rows()), y.p.n));
      }
      s->eqs.push_back(equation(vars, M, p));
      s->m += static_cast<int>(A.rows());
    };
    int kind = xs.size() == 1 ? r.i(0, regular ? 2 : 4) : r.i(1, 2);
    int calc = 0;
    std::vector<Eigen::DenseIndex> nnz, zeros;
    int first = 0, size = 0;
    if(kind == 0) // diagonal
    {
      VectorXd D(n);
      for(int i = 0; i < n; ++i)
        D[i] = (r.b() ? 1 : -1) * r.d(0.5, 2);
      int q = r.i(0, 2);
      MP p(MP::DIAGONAL, MP::Invertibility(true));
      if(q == 1)
      {
        D.setOnes();
        p = MP(MP::IDENTITY);
      }
      if(q == 2)
      {
        D.setConstant(-1);
        p = MP(MP::MINUS_IDENTITY);
      }
      calc = hosted ? r.pick(std::vector<int>{0, 2}) : r.i(0, 2);
      s->rank = n;
      if(q == 0 && !regular && r.b(0.4))
      {
        // diagonal with zeros on the diagonal, and thus not declared invertible: for the general calculator
        p = MP(MP::DIAGONAL);
        if(n > 1)
          for(int i = 0; i < n; ++i)
            if(r.b(0.3) && s->rank > 1)
            {
              D(i) = 0;
              --s->rank;
            }
        s->deficient = s->rank < n;
        calc = r.i(0, 1);
      }
      build(D.asDiagonal(), 0.5, hosted ? nullptr : &p);
      s->fixedPattern = true;
    }
    else if(kind <= 2) // full row rank, one or two equations
    {
      int m = r.b() ? n : r.i(1, n);
      MatrixXd A = ranked(m, n, m);
      int m1 = m >= 2 && r.b(0.4) ? r.i(1, m - 1) : m;
      build(A.topRows(m1), 0.6, nullptr);
      if(m1 < m)
        build(A.bottomRows(m - m1), 0.6, nullptr);
      s->rank = m;
      calc = r.i(0, 1);
    }
    else if(kind == 3) // rank deficient
    {
      int m = r.i(1, n), k = r.i(1, m);
      build(ranked(m, n, k), 0.4, nullptr);
      s->rank = k;
      s->deficient = k < m;
      calc = 1;
    }
    else // diagonal with missing and zero rows
    {
      bool range = r.b(0.3);
      std::vector<int> pat;
      for(int i = 0; i < n; ++i)
        pat.push_back(range ? -1 : r.i(-1, 1));
      if(range)
      {
        first = r.i(0, n - 1);
        size = r.i(1, n - first);
        for(int i = 0; i < size; ++i)
          pat[static_cast<size_t>(first + i)] = 1;
      }
      else
        pat[static_cast<size_t>(r.i(0, n - 1))] = 1;
      int m = 0;
      for(int q : pat)
        m += q >= 0;
      MatrixXd D = MatrixXd::Zero(m, n);
      int k = 0;
      for(int i = 0; i < n; ++i)
      {
        int q = pat[static_cast<size_t>(i)];
        if(q == 1)
        {
          D(k, i) = (r.b() ? 1 : -1) * r.d(0.5, 2);
          nnz.push_back(i);
        }
        if(q == 0)
          zeros.push_back(i);
        k += q >= 0;
      }
      build(D, 0.4, nullptr);
      s->rank = static_cast<int>(nnz.size());
      s->deficient = s->rank < m;
      s->fixedPattern = true;
      calc = range ? 4 : 3;
      r.shuffle(nnz);
      r.shuffle(zeros);
    }
    std::vector<LinearConstraintPtr> c;
    std::vector<VariablePtr> x;
    for(auto & e : s->eqs)
      c.push_back(e->c);
    for(auto & v : xs)
      x.push_back(v.v);
    int rank = s->rank == s->m && r.b() ? constant::fullRank : s->rank;
    using namespace hint::internal;
    if(calc == 0)
      s->s = std::make_unique<hint::Substitution>(c, x, rank);
    else if(calc == 1)
      s->s = std::make_unique<hint::Substitution>(c, x, rank, GenericCalculator());
    else if(calc == 2)
      s->s = std::make_unique<hint::Substitution>(c, x, rank, DiagonalCalculator());
    else if(calc == 3)
      s->s = std::make_unique<hint::Substitution>(c, x, rank, DiagonalCalculator(nnz, zeros));
    else
      s->s = std::make_unique<hint::Substitution>(c, x, rank, DiagonalCalculator(first, size));
    VT_CHECK(s->s->rank() == s->rank && s->s->m() == s->m, "S06-rank", s->s->rank(), " instead of ", s->rank);
    op("sub", kind, " calc", calc, " rank", s->rank, hosted ? " hosted" : "");
    subs.push_back(std::move(s));
    return true;
  }
  MatrixXd rows(const Eq & e) const
  {
    MatrixXd R = MatrixXd::Zero(e.m(), N);
    for(size_t q = 0; q < e.M.size(); ++q)
      R.middleCols(col(e.vars[q]), e.vars[q].p.n) += e.M[q];
    return R;
  }
  bool dependsOn(const Sub & s, const Sub & t) const
  {
    for(auto & x : t.xs)
      for(auto & e : s.eqs)
        for(auto & v : e->vars)
          if(v.p.intersects(x.p))
            return true;
    return false;
  }
  /** Are the interdependent substitutions independent, full rank and well conditioned together? */
  bool acceptable() const
  {
    size_t n = subs.size();
    std::vector<std::vector<bool>> reach(n, std::vector<bool>(n, false));
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        reach[i][j] = i != j && dependsOn(*subs[i], *subs[j]);
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j)
          if(reach[i][k] && reach[k][j])
            reach[i][j] = true;
    for(size_t i = 0; i < n; ++i)
    {
      std::vector<const Sub *> g = {subs[i].get()};
      for(size_t j = 0; j < n; ++j)
        if(j != i && reach[i][j] && reach[j][i])
          g.push_back(subs[j].get());
      if(g.size() == 1)
        continue;
      int m = 0, c = 0;
      for(auto s : g)
      {
        if(s->deficient || s->rank < s->m)
          return false;
        m += s->m;
        for(auto & x : s->xs)
          c += x.p.n;
      }
      MatrixXd A(m, c);
      int a = 0;
      for(auto s : g)
        for(auto & e : s->eqs)
        {
          MatrixXd R = rows(*e);
          int k = 0;
          for(auto t : g)
            for(auto & x : t->xs)
            {
              A.block(a, k, e->m(), x.p.n) = R.middleCols(col(x), x.p.n);
              k += x.p.n;
            }
          a += e->m();
        }
      if(m > c || Eigen::JacobiSVD<MatrixXd>(A).singularValues().minCoeff() < 0.1)
        return false;
      count("groups");
    }
    return true;
  }
  /** Coordinates of a variable given by the code, -1 if none of the pool. */
  int find(const Variable & v) const
  {
    for(size_t b = 0; b < pool.base.size(); ++b)
      if(v.superVariable() == pool.base[b])
        return offset[b] + v.subvariableRange().start;
    return -1;
  }
  void check(const char * when)
  {
    const auto & x = S.variables();
    const auto & f = S.variableSubstitutions();
    const auto & z = S.additionalVariables();
    VT_CHECK(x.size() == f.size(), "S06-sizes", x.size(), " ", f.size());
    // coordinates of z after those of the pool
    int Nz = 0;
    std::map<const Variable *, int> zc;
    for(auto & zi : z)
    {
      VT_CHECK(zi->size() > 0 && !zc.count(zi.get()) && find(*zi) < 0, "S06-additional-variable", zi->name());
      zc[zi.get()] = N + Nz;
      Nz += zi->size();
    }
    auto column = [&](const Variable & v) {
      int c = find(v);
      if(c >= 0)
        return c;
      VT_CHECK(zc.count(&v), "S06-unknown-variable", v.name());
      return zc[&v];
    };
    // which coordinates are substituted
    std::vector<int> isX(static_cast<size_t>(N), 0), expX(static_cast<size_t>(N), 0), used(static_cast<size_t>(N), 0);
    int total = 0;
    for(auto & s : subs)
    {
      for(auto & v : s->xs)
        for(int i = 0; i < v.p.n; ++i)
          expX[static_cast<size_t>(col(v) + i)]++;
      for(auto & e : s->eqs)
      {
        total += e->m();
        for(auto & v : e->vars)
          for(int i = 0; i < v.p.n; ++i)
            used[static_cast<size_t>(col(v) + i)] = 1;
        VT_CHECK(S.uses(e->c), "S06-uses", when);
      }
    }
    MatrixXd T = MatrixXd::Zero(N, N + Nz); // X = T [Y;Z] + t
    VectorXd t = VectorXd::Zero(N);
    for(int i = 0; i < N; ++i)
      T(i, i) = 1;
    for(size_t k = 0; k < x.size(); ++k)
    {
      int c = find(*x[k]);
      VT_CHECK(c >= 0, "S06-substituted", x[k]->name());
      for(int i = 0; i < x[k]->size(); ++i)
      {
        isX[static_cast<size_t>(c + i)]++;
        T(c + i, c + i) = 0;
      }
    }
    VT_CHECK(isX == expX, "S06-substituted", when);
    for(size_t k = 0; k < x.size(); ++k)
    {
      int c = find(*x[k]);
      VT_CHECK(f[k]->size() == x[k]->size(), "S06-function-size", f[k]->size());
      for(auto & v : f[k]->variables())
      {
        int d = column(*v);
        for(int i = 0; d < N && i < v->size(); ++i)
          VT_CHECK(!isX[static_cast<size_t>(d + i)], "S06-function-of-substituted", v->name());
        T.block(c, d, x[k]->size(), v->size()) += f[k]->jacobian(*v);
      }
      t.segment(c, x[k]->size()) += f[k]->b();
      VT_CHECK(!f[k]->b().properties().isZero() || f[k]->b().isZero(), "S06-claimed-zero", when, " ", x[k]->name());
    }
    VT_CHECK(T.allFinite() && t.allFinite(), "S06-not-finite", when);
    // original equations
    MatrixXd C(total, N);
    VectorXd d(total);
    int a = 0;
    for(auto & s : subs)
      for(auto & e : s->eqs)
      {
        C.middleRows(a, e->m()) = rows(*e);
        d.segment(a, e->m()) = e->rhs;
        a += e->m();
      }
    // remaining equations
    MatrixXd R = MatrixXd::Zero(0, N + Nz);
    VectorXd q(0);
    for(auto & c : S.additionalConstraints())
    {
      VT_CHECK(c->type() == constraint::Type::EQUAL && c->rhs() == RHS::AS_GIVEN, "S06-remaining-type", when);
      Eigen::Index n0 = R.rows();
      R.conservativeResize(n0 + c->size(), N + Nz);
      R.bottomRows(c->size()).setZero();
      for(auto & v : c->variables())
      {
        int k = column(*v);
        for(int i = 0; k < N && i < v->size(); ++i)
          VT_CHECK(!isX[static_cast<size_t>(k + i)], "S06-remaining-of-substituted", v->name());
        R.block(n0, k, c->size(), v->size()) += c->jacobian(*v);
      }
      q.conservativeResize(n0 + c->size());
      q.tail(c->size()) = c->e();
    }
    VT_CHECK(R.allFinite() && q.allFinite(), "S06-not-finite", when);
    // free coordinates: neither substituted nor unused
    std::vector<int> cols;
    for(int i = 0; i < N + Nz; ++i)
      if(i >= N || (!isX[static_cast<size_t>(i)] && used[static_cast<size_t>(i)]))
        cols.push_back(i);
    MatrixXd Tf(N, static_cast<Eigen::Index>(cols.size())), Rf(R.rows(), static_cast<Eigen::Index>(cols.size()));
    for(size_t k = 0; k < cols.size(); ++k)
    {
      Tf.col(static_cast<Eigen::Index>(k)) = T.col(cols[k]);
      if(R.rows())
        Rf.col(static_cast<Eigen::Index>(k)) = R.col(cols[k]);
    }
    VectorXd p = VectorXd::Zero(Rf.cols());
    MatrixXd K = MatrixXd::Identity(Rf.cols(), Rf.cols());
    if(R.rows() && Rf.cols())
    {
      Eigen::JacobiSVD<MatrixXd> svd(Rf, Eigen::ComputeFullU | Eigen::ComputeFullV);
      svd.setThreshold(1e-8);
      p = svd.solve(q);
      int k = rankOf(Rf);
      K = svd.matrixV().rightCols(Rf.cols() - k);
      VT_CHECK((Rf * p - q).norm() < 1e-7 * (1 + q.norm()), "S06-remaining-infeasible", show(q));
    }
    else if(R.rows())
      VT_CHECK(q.norm() < 1e-7, "S06-remaining-infeasible", show(q));
    // the points described by the substitutions satisfy the equations ...
    VectorXd base = Tf * p + t;
    VT_CHECK((C * base - d).norm() < 1e-6 * (1 + d.norm()), "S06-not-solution", when, " ", show(C * base - d));
    MatrixXd D = C * Tf * K;
    VT_CHECK(D.size() == 0 || D.cwiseAbs().maxCoeff() < 1e-6, "S06-not-solution", when, " directions ", show(D));
    // ... and there are as many of them
    int nu = 0;
    for(int i = 0; i < N; ++i)
      nu += used[static_cast<size_t>(i)];
    int d1 = nu - rankOf(C);
    int d2 = K.cols() ? rankOf(Tf * K) : 0;
    VT_CHECK(d1 == d2, "S06-dimension", when, " ", d1, " degrees of freedom became ", d2);
    count("sets_compared");
    // values of the substituted variables
    VectorXd val = VectorXd::Zero(N + Nz);
    pool.randomize(0);
    for(auto & zi : z)
      zi->set(r.vec(zi->size()));
    for(size_t b = 0; b < pool.base.size(); ++b)
      val.segment(offset[b], pool.sizes[b]) = pool.base[b]->value();
    for(auto & zi : z)
      val.segment(zc[zi.get()], zi->size()) = zi->value();
    S.updateVariableValues();
    VectorXd exp = T * val + t;
    for(size_t b = 0; b < pool.base.size(); ++b)
      VT_CHECK(close(pool.base[b]->value(), exp.segment(offset[b], pool.sizes[b]), 1e-9), "S06-values", when);
    // variables replacing a variable
    PV v = pool.any(0, 0.3);
    if(granular(v))
    {
      auto rv = S.substitute(v.v);
      std::set<int> got, want;
      for(auto & w : rv)
        for(int i = 0; i < w->size(); ++i)
          got.insert(column(*w) + i);
      for(int i = 0; i < v.p.n; ++i)
        if(!isX[static_cast<size_t>(col(v) + i)])
          want.insert(col(v) + i);
      for(size_t k = 0; k < x.size(); ++k)
        if(find(*x[k]) >= col(v) && find(*x[k]) < col(v) + v.p.n)
          for(auto & w : f[k]->variables())
            for(int i = 0; i < w->size(); ++i)
              want.insert(column(*w) + i);
      VT_CHECK(got == want, "S06-substitute", v.str());
    }
  }
  /** Change matrices and right-hand sides, keeping ranks. */
  void change()
  {
    op("change");
    if(!X0.isZero())
      X0 = r.vec(N);
    for(auto & s : subs)
    {
      double k = r.b() ? r.d(0.7, 1.4) : 1;
      for(auto & e : s->eqs)
      {
        if(r.b() && k != 1 && !s->fixedPattern)
          for(size_t q = 0; q < e->M.size(); ++q)
          {
            e->M[q] *= k;
            e->c->A(e->M[q], *e->vars[q].v);
          }
        if(!s->fixedPattern || e->M.size() == 1 || r.b())
        {
        }
        else
          for(size_t q = 1; q < e->M.size(); ++q)
          {
            e->M[q] *= 1.1;
            e->c->A(e->M[q], *e->vars[q].v);
          }
        setRhs(*e);
      }
    }
  }
};

void caseDirect(Rng & r)
{
  World W(r, r.b(0.3));
  if(W.many)
    W.regular = r.b(0.8);
  else if(r.b(0.3))
    W.X0.setZero();
  else
    W.regular = r.b();
  int n = W.many ? r.i(3, 8) : r.i(1, 4);
  for(int i = 0; i < n; ++i)
  {
    if(W.addSub())
    {
      if(!W.acceptable())
        W.subs.pop_back();
      else
        W.S.add(*W.subs.back()->s);
    }
  }
  if(W.subs.empty())
    return;
  nontrivial();
  count("substitutions", static_cast<long>(W.subs.size()));
  W.S.finalize();
  W.S.updateSubstitutions();
  W.check("first");
  int steps = r.i(0, 4);
  for(int i = 0; i < steps; ++i)
  {
    int c = r.i(0, 3);
    if(c <= 1)
    {
      W.change();
      if(!W.acceptable())
        return;
    }
    else if(c == 2 && W.subs.size() > 1)
    {
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(W.subs.size()) - 1));
      W.S.remove(*W.subs[k]->s);
      W.subs.erase(W.subs.begin() + static_cast<long>(k));
      op("remove", k);
      W.S.finalize();
    }
    else if(c == 3)
    {
      if(!W.addSub())
        continue;
      if(!W.acceptable())
      {
        W.subs.pop_back();
        continue;
      }
      W.S.add(*W.subs.back()->s);
      W.S.finalize();
    }
    W.S.updateSubstitutions();
    W.check("after changes");
    count("changes");
  }
}
/** The rank of the equations is not the declared one: this cannot be solved silently.*/
void caseWrongRank(Rng & r)
{
  int n = r.i(2, 4), m = r.i(2, n), k = r.i(1, m), d = r.i(1, m);
  VariablePtr x = Space(n).createVariable("x");
  VariablePtr y = Space(2).createVariable("y");
  auto low = [&](int q) -> MatrixXd {
    MatrixXd Q = Eigen::HouseholderQR<MatrixXd>(r.mat(m, m)).householderQ();
    MatrixXd S = Eigen::HouseholderQR<MatrixXd>(r.mat(n, n)).householderQ();
    return Q.leftCols(q) * S.topRows(q);
  };
  MatrixXd A = low(d), B = r.mat(m, 2);
  std::vector<VariablePtr> xy{x, y};
  auto c = std::make_shared<constraint::BasicLinearConstraint>(m, xy, constraint::Type::EQUAL);
  c->A(A, *x);
  c->A(B, *y);
  c->b(VectorXd::Zero(m));
  hint::internal::Substitutions S;
  S.add(r.b() ? hint::Substitution(c, x, d) : hint::Substitution(c, x, d, hint::internal::GenericCalculator()));
  S.finalize();
  S.updateSubstitutions();
  c->A(low(k), *x);
  op("rank declared ", d, " actual ", k);
  bool refused = false;
  try
  {
    S.updateSubstitutions();
  }
  catch(const std::runtime_error &)
  {
    refused = true;
  }
  VT_CHECK(refused == (k != d), "S06-rank-change", "declared ", d, " actual ", k, refused ? " refused" : " accepted");
  count("rank_changes");
  nontrivial();
}
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, [](Rng & r) {
    if(r.b(0.03))
      caseWrongRank(r);
    else
      caseDirect(r);
  }); }

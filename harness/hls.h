// A reference hierarchical solver that records the problem it receives.
#pragma once
#include "lsq.h"
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/abstract/HierarchicalLeastSquareSolver.h>

namespace hls
{
using Eigen::MatrixXd;
using Eigen::VectorXd;
using tvm::constraint::RHS;
using tvm::constraint::Type;

struct Level
{
  std::vector<VectorXd> a; // half-spaces a x >= h (two for an equality)
  std::vector<double> h;
  MatrixXd E; // equalities
  VectorXd f;
  bool onlyEq = true;
};
struct Snapshot
{
  std::vector<tvm::VariablePtr> vars;
  std::vector<Level> lvl;
  VectorXd xl, xu, x;
  bool ok = false, minNorm = false, lexicographic = false;
  std::vector<double> rowBig, boundBig; // values standing for no limit
};
struct Log
{
  Snapshot last;
  long solves = 0, created = 0, builds = 0;
  bool failNext = false, throwNext = false;
  vt::Rng * r = nullptr;
};
struct Style
{
  bool twoSided = true;
  RHS eqRhs = RHS::AS_GIVEN, inRhs = RHS::AS_GIVEN;
  Type inType = Type::GREATER_THAN;
  static Style random(vt::Rng & r)
  {
    Style s;
    s.twoSided = r.b();
    s.eqRhs = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
    s.inRhs = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
    s.inType = r.b() ? Type::GREATER_THAN : Type::LOWER_THAN;
    return s;
  }
};

/** Lexicographic least squares of E_k x = f_k. */
inline VectorXd lexicographic(const std::vector<std::pair<MatrixXd, VectorXd>> & L, int n)
{
  VectorXd x = VectorXd::Zero(n);
  MatrixXd Z = MatrixXd::Identity(n, n);
  for(auto & l : L)
  {
    if(l.first.rows() == 0 || Z.cols() == 0)
      continue;
    MatrixXd A = l.first * Z;
    Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV);
    VectorXd s = svd.singularValues();
    Eigen::Index k = 0;
    while(k < s.size() && s[k] > 1e-8)
      ++k;
    VectorXd rhs = svd.matrixU().transpose() * (l.second - l.first * x);
    VectorXd y = VectorXd::Zero(Z.cols());
    for(Eigen::Index i = 0; i < k; ++i)
      y += svd.matrixV().col(i) * (rhs[i] / s[i]);
    x += Z * y;
    Z = (Z * svd.matrixV().rightCols(Z.cols() - k)).eval();
  }
  return x;
}

/** Solution of a snapshot with only equalities, and B x = b first. */
inline void optimum(Snapshot & s, const MatrixXd & B, const VectorXd & b, int n, VectorXd & res)
{
  std::vector<std::pair<MatrixXd, VectorXd>> P;
  P.emplace_back(B, b);
  bool finite = true;
  for(auto & L : s.lvl)
  {
    P.emplace_back(L.E, L.f);
    finite = finite && L.E.allFinite() && L.f.allFinite();
  }
  if(finite)
    res = lexicographic(P, n);
  s.lexicographic = true;
}

class RefHLS : public tvm::solver::abstract::HierarchicalLeastSquareSolver
{
public:
  using LC = tvm::constraint::abstract::LinearConstraint;
  using Target = tvm::scheme::internal::AssignmentTarget;
  RefHLS(const Style & s, std::shared_ptr<Log> l) : HierarchicalLeastSquareSolver(false), st(s), log(l)
  { ++log->created; }

protected:
  struct Data
  {
    MatrixXd E, G, T; // equalities and inequalities (one-sided), or all (two-sided)
    VectorXd e, g, l, u;
  };
  Style st;
  std::shared_ptr<Log> log;
  std::vector<std::unique_ptr<Data>> d;
  VectorXd xl, xu, res;
  bool minNorm = false;

  void initializeBuild_(const std::vector<int> & nEq, const std::vector<int> & nIneq, bool useBounds) override
  {
    ++log->builds;
    resize_(nEq, nIneq, useBounds);
    minNorm = false;
  }
  ImpactFromChanges resize_(const std::vector<int> & nEq, const std::vector<int> & nIneq, bool) override
  {
    const int n = variables().totalSize();
    d.clear();
    for(size_t i = 0; i < nEq.size(); ++i)
    {
      d.push_back(std::make_unique<Data>());
      Data & k = *d.back();
      k.E = MatrixXd::Zero(nEq[i], n);
      k.G = MatrixXd::Zero(nIneq[i], n);
      k.T = MatrixXd::Zero(nEq[i] + nIneq[i], n);
      k.e.resize(nEq[i]);
      k.g.resize(nIneq[i]);
      k.l.resize(nEq[i] + nIneq[i]);
      k.u.resize(nEq[i] + nIneq[i]);
    }
    xl.resize(n);
    xu.resize(n);
    resetBounds_();
    res = VectorXd::Zero(n);
    ImpactFromChanges im(static_cast<int>(nEq.size()));
    return im;
  }
  void addBound_(tvm::LinearConstraintPtr b, tvm::RangePtr range, bool first) override
  {
    Target t(range, xl, xu);
    addAssignement(b, t, b->variables()[0], first);
  }
  Data & at(int lvl) { return *d[static_cast<size_t>(lvl)]; }
  void addEqualityConstraint_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req) override
  {
    int lvl = req->priorityLevel().value();
    auto r = std::make_shared<tvm::Range>(nextEqualityConstraintRange_(lvl, *c));
    Data & k = at(lvl);
    if(st.twoSided)
      addAssignement(c, req, Target(r, k.T, k.l, k.u, RHS::AS_GIVEN), variables(), substitutions());
    else
      addAssignement(c, req, Target(r, k.E, k.e, Type::EQUAL, st.eqRhs), variables(), substitutions());
  }
  void addIneqalityConstraint_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req) override
  {
    int lvl = req->priorityLevel().value();
    auto r = std::make_shared<tvm::Range>(nextInequalityConstraintRange_(lvl, *c));
    Data & k = at(lvl);
    if(st.twoSided)
      addAssignement(c, req, Target(r, k.T, k.l, k.u, RHS::AS_GIVEN), variables(), substitutions());
    else
      addAssignement(c, req, Target(r, k.G, k.g, st.inType, st.inRhs), variables(), substitutions());
  }
  void setMinimumNorm_() override { minNorm = true; }
  void resetBounds_() override
  {
    xl.setConstant(-tvm::constant::big_number);
    xu.setConstant(+tvm::constant::big_number);
  }
  void preAssignmentProcess_() override
  {
    const double nan = std::nan("");
    for(auto & k : d)
      for(auto * v : {&k->e, &k->g, &k->l, &k->u})
        v->setConstant(nan);
  }
  bool solve_() override
  {
    vt::AllowMalloc am;
    ++log->solves;
    if(log->throwNext)
    {
      log->throwNext = false;
      throw std::runtime_error("numerical trouble in the solver");
    }
    const int n = variables().totalSize();
    Snapshot & s = log->last;
    s = Snapshot();
    s.vars = variables().variables();
    s.minNorm = minNorm;
    s.xl = xl;
    s.xu = xu;
    bool eqOnly = true;
    for(size_t i = 0; i < d.size(); ++i)
    {
      Data & k = *d[i];
      Level L;
      std::vector<VectorXd> E;
      std::vector<double> f;
      auto half = [&](const VectorXd & a, double h) {
        L.a.push_back(a);
        L.h.push_back(h);
      };
      auto eq = [&](const VectorXd & a, double h) {
        half(a, h);
        half(-a, -h);
        E.push_back(a);
        f.push_back(h);
      };
      if(minNorm && i + 1 == d.size())
      {
        for(int j = 0; j < n; ++j)
          eq(VectorXd::Unit(n, j), 0);
      }
      else if(st.twoSided)
      {
        for(Eigen::Index j = 0; j < k.T.rows(); ++j)
        {
          VectorXd a = k.T.row(j).transpose();
          for(double v : {k.l[j], k.u[j]})
            if(std::abs(v) > lsq::BIG)
              s.rowBig.push_back(std::abs(v));
          if(k.l[j] == k.u[j])
            eq(a, k.l[j]);
          else
          {
            L.onlyEq = false;
            if(!(k.l[j] < -lsq::BIG))
              half(a, k.l[j]);
            if(!(k.u[j] > lsq::BIG))
              half(-a, -k.u[j]);
          }
        }
      }
      else
      {
        for(Eigen::Index j = 0; j < k.E.rows(); ++j)
          eq(k.E.row(j).transpose(), st.eqRhs == RHS::OPPOSITE ? -k.e[j] : k.e[j]);
        double sg = st.inType == Type::GREATER_THAN ? 1 : -1, sr = st.inRhs == RHS::OPPOSITE ? -1 : 1;
        for(Eigen::Index j = 0; j < k.G.rows(); ++j)
        {
          half(sg * k.G.row(j).transpose(), sg * sr * k.g[j]);
          L.onlyEq = false;
        }
      }
      L.E.resize(static_cast<Eigen::Index>(E.size()), n);
      L.f.resize(L.E.rows());
      for(size_t j = 0; j < E.size(); ++j)
      {
        L.E.row(static_cast<Eigen::Index>(j)) = E[j].transpose();
        L.f[static_cast<Eigen::Index>(j)] = f[j];
      }
      eqOnly = eqOnly && L.onlyEq;
      s.lvl.push_back(L);
    }
    MatrixXd B(n, n);
    VectorXd bb(n);
    int nb = 0;
    for(int j = 0; j < n; ++j)
    {
      bool fixed = xl[j] == xu[j];
      for(double v : {xl[j], xu[j]})
        if(std::abs(v) > lsq::BIG)
          s.boundBig.push_back(std::abs(v));
      eqOnly = eqOnly && (fixed || (xl[j] < -lsq::BIG && xu[j] > lsq::BIG));
      if(fixed)
      {
        B.row(nb) = VectorXd::Unit(n, j).transpose();
        bb[nb++] = xl[j];
      }
    }
    if(eqOnly)
      optimum(s, B.topRows(nb), bb.head(nb), n, res);
    else
      res = log->r->vec(n);
    s.ok = !log->failNext;
    log->failNext = false;
    s.x = res;
    return s.ok;
  }
  const VectorXd & result_() const override { return res; }
  bool handleDoubleSidedConstraint_() const override { return st.twoSided; }
  tvm::Range nextEqualityConstraintRange_(int l, const LC & c) const override
  {
    auto k = static_cast<size_t>(l);
    return {st.twoSided ? eqSize_[k] + ineqSize_[k] : eqSize_[k], c.size()};
  }
  tvm::Range nextInequalityConstraintRange_(int l, const LC & c) const override
  {
    auto k = static_cast<size_t>(l);
    return {st.twoSided ? eqSize_[k] + ineqSize_[k] : ineqSize_[k], constraintSize(c)};
  }
  void removeBounds_(const tvm::Range & r) override
  {
    xl.segment(r.start, r.dim).setConstant(-tvm::constant::big_number);
    xu.segment(r.start, r.dim).setConstant(+tvm::constant::big_number);
  }
  void updateEqualityTargetData(int l, Target & t) override
  {
    Data & k = at(l);
    if(st.twoSided)
      t.changeData(lsq::MRef(k.T), k.l, k.u);
    else
      t.changeData(lsq::MRef(k.E), k.e);
  }
  void updateInequalityTargetData(int l, Target & t) override
  {
    Data & k = at(l);
    if(st.twoSided)
      t.changeData(lsq::MRef(k.T), k.l, k.u);
    else
      t.changeData(lsq::MRef(k.G), k.g);
  }
  void updateBoundTargetData(Target & t) override { t.changeData(lsq::VRef(xl), xu); }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
};

class RefFactory : public tvm::solver::abstract::HLSSolverFactory
{
public:
  RefFactory(const Style & s, std::shared_ptr<Log> l) : HLSSolverFactory("reference"), s_(s), l_(l) {}
  std::unique_ptr<HLSSolverFactory> clone() const override { return std::make_unique<RefFactory>(s_, l_); }
  std::unique_ptr<tvm::solver::abstract::HierarchicalLeastSquareSolver> createSolver() const override
  { return std::make_unique<RefHLS>(s_, l_); }

private:
  Style s_;
  std::shared_ptr<Log> l_;
};
} // namespace hls

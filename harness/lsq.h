// Reference least-squares solvers plugged in the resolution schemes: they record the problem they are given and solve it with
// a small dense algorithm (null-space elimination of the equalities, then Lawson-Hanson LDP).
#pragma once
#include "pool.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
#include <Eigen/Dense>

namespace lsq
{
using Eigen::MatrixXd;
using Eigen::VectorXd;
using MRef = Eigen::Ref<MatrixXd>;
using VRef = Eigen::Ref<VectorXd>;
constexpr double BIG = 1e15; // beyond: no bound

/** min ||E u - f||, u >= 0 */
inline VectorXd nnls(const MatrixXd & E, const VectorXd & f)
{
  const Eigen::Index n = E.cols();
  VectorXd x = VectorXd::Zero(n);
  std::vector<bool> P(static_cast<size_t>(n), false);
  std::vector<bool> blocked(static_cast<size_t>(n), false);
  const double tol = 1e-12 * (1 + E.norm()) * (1 + f.norm());
  auto solveP = [&](VectorXd & s) {
    std::vector<Eigen::Index> idx;
    for(Eigen::Index k = 0; k < n; ++k)
      if(P[static_cast<size_t>(k)])
        idx.push_back(k);
    MatrixXd Ep(E.rows(), static_cast<Eigen::Index>(idx.size()));
    for(size_t k = 0; k < idx.size(); ++k)
      Ep.col(static_cast<Eigen::Index>(k)) = E.col(idx[k]);
    VectorXd sp = Ep.colPivHouseholderQr().solve(f);
    s = VectorXd::Zero(n);
    for(size_t k = 0; k < idx.size(); ++k)
      s[idx[k]] = sp[static_cast<Eigen::Index>(k)];
  };
  for(int outer = 0; outer < 10 * (n + 5); ++outer)
  {
    VectorXd w = E.transpose() * (f - E * x);
    Eigen::Index best = -1;
    for(Eigen::Index k = 0; k < n; ++k)
      if(!P[static_cast<size_t>(k)] && !blocked[static_cast<size_t>(k)] && w[k] > tol && (best < 0 || w[k] > w[best]))
        best = k;
    if(best < 0)
      break;
    P[static_cast<size_t>(best)] = true;
    VectorXd s;
    solveP(s);
    if(s[best] <= 0) // rounding: not a true descent direction
    {
      P[static_cast<size_t>(best)] = false;
      blocked[static_cast<size_t>(best)] = true;
      continue;
    }
    for(int inner = 0; inner < 10 * (n + 5); ++inner)
    {
      double a = 1;
      bool neg = false;
      for(Eigen::Index k = 0; k < n; ++k)
        if(P[static_cast<size_t>(k)] && s[k] <= 0)
        {
          neg = true;
          if(x[k] - s[k] > 0)
            a = std::min(a, x[k] / (x[k] - s[k]));
        }
      if(!neg)
        break;
      x += a * (s - x);
      for(Eigen::Index k = 0; k < n; ++k)
        if(P[static_cast<size_t>(k)] && (x[k] <= 1e-14 || (s[k] <= 0 && x[k] <= 1e-13)))
        {
          x[k] = 0;
          P[static_cast<size_t>(k)] = false;
        }
      solveP(s);
    }
    x = s;
    std::fill(blocked.begin(), blocked.end(), false);
    blocked[static_cast<size_t>(best)] = false;
  }
  return x.cwiseMax(0);
}

/** min ||A x - b|| s.t. C x = d, G x >= h. False if infeasible. Ties broken by (nearly) minimum norm. */
inline bool solve(const MatrixXd & A, const VectorXd & b, const MatrixXd & C, const VectorXd & d, const MatrixXd & G,
                  const VectorXd & h, VectorXd & x)
{
  const Eigen::Index n = A.cols();
  x = VectorXd::Zero(n);
  if(n == 0)
    return (C.rows() == 0 || d.norm() < 1e-9) && (G.rows() == 0 || h.maxCoeff() <= 1e-9);
  MatrixXd Z = MatrixXd::Identity(n, n);
  if(C.rows() > 0)
  {
    Eigen::JacobiSVD<MatrixXd> svd(C, Eigen::ComputeFullU | Eigen::ComputeFullV);
    double s0 = svd.singularValues().size() ? svd.singularValues()[0] : 0;
    Eigen::Index r = 0;
    while(r < svd.singularValues().size() && svd.singularValues()[r] > 1e-9 * std::max(1e-3, s0))
      ++r;
    VectorXd c = (svd.matrixU().transpose() * d).head(r);
    c.array() /= svd.singularValues().head(r).array();
    x = svd.matrixV().leftCols(r) * c;
    if((C * x - d).norm() > 1e-7 * (1 + d.norm()))
      return false;
    Z = svd.matrixV().rightCols(n - r);
  }
  const Eigen::Index m = Z.cols();
  if(m == 0)
    return G.rows() == 0 || (h - G * x).maxCoeff() <= 1e-7 * (1 + h.norm());
  MatrixXd E = MatrixXd::Zero(std::max(A.rows(), m), m);
  VectorXd f = VectorXd::Zero(E.rows());
  E.topRows(A.rows()) = A * Z;
  f.head(A.rows()) = b - A * x;
  Eigen::JacobiSVD<MatrixXd> svd(E, Eigen::ComputeThinU | Eigen::ComputeThinV);
  VectorXd s = svd.singularValues();
  double s0 = s[0] > 1e-6 ? s[0] : 1.;
  VectorXd f1 = svd.matrixU().transpose() * f;
  for(Eigen::Index k = 0; k < m; ++k)
    if(s[k] < 1e-9 * s0)
    {
      s[k] = 1e-4 * s0;
      f1[k] = -(svd.matrixV().col(k).dot(Z.transpose() * x)) * s[k];
    }
  MatrixXd T = svd.matrixV() * s.cwiseInverse().asDiagonal(); // y = T (w + f1)
  VectorXd w = VectorXd::Zero(m);
  if(G.rows() > 0)
  {
    MatrixXd Gw = G * Z * T;
    VectorXd hw = h - G * x - Gw * f1;
    for(Eigen::Index k = 0; k < Gw.rows(); ++k) // row scaling
    {
      double sc = Gw.row(k).norm();
      if(sc < 1e-11)
      {
        if(hw[k] > 1e-7)
          return false;
        Gw.row(k).setZero();
        hw[k] = 0;
      }
      else
      {
        Gw.row(k) /= sc;
        hw[k] /= sc;
      }
    }
    if(hw.maxCoeff() > 0)
    {
      MatrixXd EE(m + 1, Gw.rows());
      EE.topRows(m) = Gw.transpose();
      double sc = std::max(1.0, hw.cwiseAbs().maxCoeff());
      EE.row(m) = hw.transpose() / sc;
      VectorXd ff = VectorXd::Zero(m + 1);
      ff[m] = 1;
      VectorXd u = nnls(EE, ff);
      VectorXd r = EE * u - ff;
      if(std::abs(r[m]) < 1e-9)
        return false;
      w = -r.head(m) / r[m] * sc;
      if((Gw * w - hw).minCoeff() < -1e-6 * sc)
        return false;
    }
  }
  x += Z * (T * (w + f1));
  return true;
}

/** How the reference solver wants its data. */
struct Style
{
  int layout = 0;                                   // 0 separate matrices, 1 [eq; ineq] in one matrix, 2 one two-sided matrix
  tvm::constraint::RHS eqRhs = tvm::constraint::RHS::AS_GIVEN;
  tvm::constraint::Type inType = tvm::constraint::Type::GREATER_THAN; // GREATER_THAN, LOWER_THAN, DOUBLE_SIDED (layout 0)
  tvm::constraint::RHS inRhs = tvm::constraint::RHS::AS_GIVEN;
  tvm::constraint::RHS objRhs = tvm::constraint::RHS::AS_GIVEN;
  bool clearObj = false;
  static Style random(vt::Rng & r)
  {
    using tvm::constraint::RHS;
    using tvm::constraint::Type;
    Style s;
    s.layout = r.i(0, 2);
    s.eqRhs = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
    s.inRhs = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
    s.objRhs = r.b() ? RHS::AS_GIVEN : RHS::OPPOSITE;
    int q = r.i(0, s.layout == 0 ? 2 : 1);
    s.inType = q == 0 ? Type::GREATER_THAN : q == 1 ? Type::LOWER_THAN : Type::DOUBLE_SIDED;
    if(s.layout == 2)
      s.inType = Type::DOUBLE_SIDED;
    s.clearObj = r.b();
    return s;
  }
  std::string name() const
  {
    return vt::str("L", layout, "e", eqRhs == tvm::constraint::RHS::OPPOSITE, "t", static_cast<int>(inType), "i",
                   inRhs == tvm::constraint::RHS::OPPOSITE, "o", objRhs == tvm::constraint::RHS::OPPOSITE);
  }
};

/** The problem seen by the solver: min ||A x - b||, C x = d, G x >= h (as handed: two-sided rows are split), xl <= x <= xu */
struct Snapshot
{
  std::vector<tvm::VariablePtr> vars;
  MatrixXd A, C, G;
  VectorXd b, d, h, xl, xu, x;
  bool ok = false;
  bool accurate = false; // the solution found is a precise one for the data received
  bool minNorm = false;
  double tol = 1e-8;       // precision of the objective
  bool degenerate = false; // the objective could not be given in the form wanted (W01)
  std::vector<double> rowBig, boundBig; // values standing for no limit
};

struct Log
{
  Snapshot last;
  long solves = 0, created = 0, builds = 0, resizes = 0;
  bool failNext = false, throwNext = false;
};

class RefLS : public tvm::solver::abstract::LeastSquareSolver
{
public:
  using Type = tvm::constraint::Type;
  using RHS = tvm::constraint::RHS;
  using LC = tvm::constraint::abstract::LinearConstraint;
  using Target = tvm::scheme::internal::AssignmentTarget;

  RefLS(const Style & s, std::shared_ptr<Log> l)
  : LeastSquareSolver(false), st(s), log(l), Ain(As), bin(bs), lin(ls), uin(us)
  { ++log->created; }

protected:
  Style st;
  std::shared_ptr<Log> log;
  // objective
  MatrixXd A;
  VectorXd b;
  // constraints
  MatrixXd Ac;      // layouts 1, 2: all; layout 0: equalities
  VectorXd bc, lc, uc;
  MatrixXd As;      // layout 0: inequalities
  VectorXd bs, ls, us;
  // views on the inequality part
  MRef Ain;
  VRef bin, lin, uin;
  VectorXd xl, xu, res;
  bool minNorm = false;

  void initializeBuild_(int nObj, int nEq, int nIneq, bool useBounds) override
  {
    ++log->builds;
    resize_(nObj, nEq, nIneq, useBounds);
    minNorm = false;
  }

  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool) override
  {
    ++log->resizes;
    const int n = variables().totalSize();
    ImpactFromChanges im;
    im.objectives_ = ImpactFromChanges::willReallocate(A, nObj, n);
    A.resize(nObj, n);
    A.setZero();
    b.resize(nObj);
    im.bounds_ = ImpactFromChanges::willReallocate(xl, n);
    xl.resize(n);
    xu.resize(n);
    resetBounds_();
    auto init = [](VectorXd & v, int k) {
      v.resize(k);
      v.setZero();
    };
    if(st.layout == 0)
    {
      im.equalityConstraints_ = ImpactFromChanges::willReallocate(Ac, nEq, n);
      Ac.resize(nEq, n);
      Ac.setZero();
      init(bc, nEq);
      im.inequalityConstraints_ = ImpactFromChanges::willReallocate(As, nIneq, n);
      As.resize(nIneq, n);
      As.setZero();
      init(bs, nIneq);
      init(ls, nIneq);
      init(us, nIneq);
      new(&Ain) MRef(As);
      new(&bin) VRef(bs);
      new(&lin) VRef(ls);
      new(&uin) VRef(us);
    }
    else
    {
      const int m = nEq + nIneq;
      im.equalityConstraints_ = im.inequalityConstraints_ = ImpactFromChanges::willReallocate(Ac, m, n);
      Ac.resize(m, n);
      Ac.setZero();
      init(bc, m);
      init(lc, m);
      init(uc, m);
      new(&Ain) MRef(Ac.bottomRows(nIneq));
      new(&bin) VRef(bc.tail(nIneq));
      new(&lin) VRef(lc);
      new(&uin) VRef(uc);
    }
    return im;
  }

  void addBound_(tvm::LinearConstraintPtr bound, tvm::RangePtr range, bool first) override
  {
    Target t(range, xl, xu);
    addAssignement(bound, t, bound->variables()[0], first);
  }
  void addEqualityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextEqualityConstraintRange_(*c));
    if(st.layout == 2)
    {
      Target t(r, Ac, lc, uc, RHS::AS_GIVEN);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
    else
    {
      Target t(r, Ac, bc, Type::EQUAL, st.eqRhs);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
  }
  void addIneqalityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextInequalityConstraintRange_(*c));
    if(st.layout == 2)
    {
      Target t(r, Ac, lc, uc, RHS::AS_GIVEN);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
    else if(st.inType == Type::DOUBLE_SIDED)
    {
      Target t(r, Ain, lin, uin, RHS::AS_GIVEN);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
    else
    {
      Target t(r, Ain, bin, st.inType, st.inRhs);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
  }
  void addObjective_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req, double w) override
  {
    auto r = std::make_shared<tvm::Range>(nextObjectiveRange_(*c));
    Target t(r, A, b, Type::EQUAL, st.objRhs);
    addAssignement(c, req, t, variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { minNorm = true; }
  void resetBounds_() override
  {
    xl.setConstant(-tvm::constant::big_number);
    xu.setConstant(+tvm::constant::big_number);
  }
  void preAssignmentProcess_() override
  {
    // every row has to be written by an assignment
    if(st.clearObj)
      A.setZero();
    const double nan = std::nan("");
    for(auto * v : {&b, &bc, &bs, &lc, &uc, &ls, &us})
      v->setConstant(nan);
  }
  bool solve_() override
  {
    vt::AllowMalloc am;
    ++log->solves;
    if(log->throwNext)
    {
      log->throwNext = false;
      throw std::runtime_error("solver exception");
    }
    Snapshot & s = log->last;
    const int n = variables().totalSize();
    s = Snapshot();
    s.vars = variables().variables();
    s.minNorm = minNorm;
    if(minNorm)
    {
      s.A = MatrixXd::Identity(n, n);
      s.b = VectorXd::Zero(n);
    }
    else
    {
      s.A = A;
      s.b = st.objRhs == RHS::OPPOSITE ? VectorXd(-b) : b;
    }
    std::vector<VectorXd> g;
    std::vector<double> h;
    if(st.layout == 2)
    {
      s.C.resize(0, n);
      s.d.resize(0);
      two(Ac, lc, uc, s, g, h);
    }
    else
    {
      s.C = Ac.topRows(nEq_);
      s.d = bc.head(nEq_);
      if(st.eqRhs == RHS::OPPOSITE)
        s.d = -s.d;
      if(st.inType == Type::DOUBLE_SIDED)
        two(Ain, lin, uin, s, g, h);
      else
      {
        double sg = st.inType == Type::GREATER_THAN ? 1 : -1;
        double sr = st.inRhs == RHS::OPPOSITE ? -1 : 1;
        for(Eigen::Index k = 0; k < Ain.rows(); ++k)
        {
          g.push_back(sg * Ain.row(k).transpose());
          h.push_back(sg * sr * bin[k]);
        }
      }
    }
    s.G.resize(static_cast<Eigen::Index>(g.size()), n);
    s.h.resize(s.G.rows());
    for(size_t k = 0; k < g.size(); ++k)
    {
      s.G.row(static_cast<Eigen::Index>(k)) = g[k].transpose();
      s.h[static_cast<Eigen::Index>(k)] = h[k];
    }
    s.xl = xl;
    s.xu = xu;
    MatrixXd Gb(s.G.rows() + 2 * n, n);
    VectorXd hb(s.G.rows() + 2 * n);
    Gb.topRows(s.G.rows()) = s.G;
    hb.head(s.G.rows()) = s.h;
    Eigen::Index k = s.G.rows();
    for(int i = 0; i < n; ++i)
    {
      for(double v : {xl[i], xu[i]})
        if(std::abs(v) > BIG)
          s.boundBig.push_back(std::abs(v));
      if(xl[i] > -BIG)
      {
        Gb.row(k).setZero();
        Gb(k, i) = 1;
        hb[k++] = xl[i];
      }
      if(xu[i] < BIG)
      {
        Gb.row(k).setZero();
        Gb(k, i) = -1;
        hb[k++] = -xu[i];
      }
    }
    bool finite = s.A.allFinite() && s.b.allFinite() && s.C.allFinite() && s.d.allFinite() && Gb.topRows(k).allFinite()
                  && hb.head(k).allFinite();
    res = VectorXd::Zero(n);
    s.ok = finite && lsq::solve(s.A, s.b, s.C, s.d, Gb.topRows(k), hb.head(k), res);
    s.accurate = s.ok && (s.C * res - s.d).norm() < 1e-7 * (1 + res.norm())
                 && (k == 0 || (hb.head(k) - Gb.topRows(k) * res).maxCoeff() < 1e-7 * (1 + res.norm()));
    if(log->failNext)
    {
      log->failNext = false;
      s.ok = false;
    }
    s.x = res;
    return s.ok;
  }
  void two(const MatrixXd & M, const VectorXd & l, const VectorXd & u, Snapshot &, std::vector<VectorXd> & g,
           std::vector<double> & h)
  {
    for(Eigen::Index k = 0; k < M.rows(); ++k)
    {
      for(double v : {l[k], u[k]})
        if(std::abs(v) > BIG)
          log->last.rowBig.push_back(std::abs(v));
      if(!(l[k] < -BIG))
      {
        g.push_back(M.row(k).transpose());
        h.push_back(l[k]);
      }
      if(!(u[k] > BIG))
      {
        g.push_back(-M.row(k).transpose());
        h.push_back(-u[k]);
      }
    }
  }
  const VectorXd & result_() const override { return res; }
  bool handleDoubleSidedConstraint_() const override { return st.layout == 2 || st.inType == Type::DOUBLE_SIDED; }
  tvm::Range nextEqualityConstraintRange_(const LC & c) const override
  { return st.layout == 2 ? tvm::Range{eqSize_ + ineqSize_, c.size()} : tvm::Range{eqSize_, c.size()}; }
  tvm::Range nextInequalityConstraintRange_(const LC & c) const override
  { return st.layout == 2 ? tvm::Range{eqSize_ + ineqSize_, c.size()} : tvm::Range{ineqSize_, constraintSize(c)}; }
  tvm::Range nextObjectiveRange_(const LC & c) const override { return {objSize_, c.size()}; }
  void removeBounds_(const tvm::Range & r) override
  {
    xl.segment(r.start, r.dim).setConstant(-tvm::constant::big_number);
    xu.segment(r.start, r.dim).setConstant(+tvm::constant::big_number);
  }
  void updateEqualityTargetData(Target & t) override
  {
    if(st.layout == 2)
      t.changeData(MRef(Ac), lc, uc);
    else
      t.changeData(MRef(Ac), bc);
  }
  void updateInequalityTargetData(Target & t) override
  {
    if(st.layout == 2)
      t.changeData(MRef(Ac), lc, uc);
    else if(st.inType == Type::DOUBLE_SIDED)
      t.changeData(MRef(Ain), lin, uin);
    else
      t.changeData(MRef(Ain), bin);
  }
  void updateBoundTargetData(Target & t) override { t.changeData(VRef(xl), xu); }
  void updateObjectiveTargetData(Target & t) override { t.changeData(MRef(A), b); }
  void applyImpactLogic(ImpactFromChanges & im) override
  {
    if(st.layout >= 1 && im.equalityConstraints_)
      im.inequalityConstraints_ = true;
    if(st.layout == 2 && im.inequalityConstraints_)
      im.equalityConstraints_ = true;
  }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
};

class RefFactory : public tvm::solver::abstract::LSSolverFactory
{
public:
  RefFactory(const Style & s, std::shared_ptr<Log> l) : LSSolverFactory("reference"), s_(s), l_(l) {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<RefFactory>(s_, l_); }
  std::unique_ptr<tvm::solver::abstract::LeastSquareSolver> createSolver() const override
  { return std::make_unique<RefLS>(s_, l_); }

private:
  Style s_;
  std::shared_ptr<Log> l_;
};
} // namespace lsq

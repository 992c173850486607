// The solver wrappers of the library, on stand-ins for the optimization libraries.
#pragma once
#include "mocks/recorder.h"
#include <tvm/scheme/WeightedLeastSquares.h>
#define TVM_USE_LSSOL
#define TVM_USE_QLD
#define TVM_USE_QUADPROG
#include "solver/LSSOLLeastSquareSolver.cpp"
#include "solver/LexLSHierarchicalLeastSquareSolver.cpp"
#include "solver/LexLSLeastSquareSolver.cpp"
#include "solver/QLDLeastSquareSolver.cpp"
#include "solver/QuadprogLeastSquareSolver.cpp"
#include "solver/defaultLeastSquareSolver.cpp"

namespace wrapped
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct InSession
{
  mock::Session S;
  InSession() { mock::session = &S; }
  ~InSession() { mock::session = nullptr; }
};

/** A least-squares wrapper, observed. */
template<typename Base>
class LS : public Base
{
public:
  template<typename O>
  LS(const O & o, std::shared_ptr<lsq::Log> l) : Base(o), log(l)
  { ++log->created; }

protected:
  std::shared_ptr<lsq::Log> log;
  bool minNorm = false;
  void initializeBuild_(int a, int b, int c, bool d) override
  {
    ++log->builds;
    minNorm = false;
    Base::initializeBuild_(a, b, c, d);
  }
  typename Base::ImpactFromChanges resize_(int a, int b, int c, bool d) override
  {
    ++log->resizes;
    return Base::resize_(a, b, c, d);
  }
  void setMinimumNorm_() override
  {
    minNorm = true;
    Base::setMinimumNorm_();
  }
  bool solve_() override
  {
    ++log->solves;
    if(log->throwNext)
    {
      log->throwNext = false;
      throw std::runtime_error("solver exception");
    }
    lsq::Snapshot & s = log->last;
    s = lsq::Snapshot();
    s.vars = this->variables().variables();
    s.minNorm = minNorm;
    InSession in;
    in.S.ls = &s;
    in.S.n = this->variables().totalSize();
    in.S.hasObj = this->nObj_ > 0;
    in.S.fail = log->failNext;
    log->failNext = false;
    bool ok = Base::solve_();
    VT_CHECK(in.S.calls == 1, "backend-calls", in.S.calls);
    VT_CHECK(ok == s.ok, "backend-status", ok, " for ", s.ok);
    s.degenerate = in.S.degenerate;
    if(minNorm)
    {
      const int n = in.S.n;
      MatrixXd H = s.A.transpose() * s.A;
      VT_CHECK(s.A.allFinite() && s.A.cols() == n && (H - H.trace() / n * MatrixXd::Identity(n, n)).norm() < 1e-9 * H.norm() && H.trace() > 0,
               "backend-minimum-norm", vt::show(s.A));
      VT_CHECK((s.A.transpose() * s.b).norm() == 0, "backend-minimum-norm", vt::show(s.b));
      vt::count("minimum_norm_seen_by_backend");
    }
    if(ok)
      VT_CHECK(Base::result_().size() == s.x.size() && (Base::result_().array() == s.x.array()).all(), "backend-result",
               vt::show(Base::result_()), " for ", vt::show(s.x));
    return ok;
  }
};

class HLS : public tvm::solver::LexLSHierarchicalLeastSquareSolver
{
public:
  using Base = tvm::solver::LexLSHierarchicalLeastSquareSolver;
  HLS(const tvm::solver::LexLSHLSSolverOptions & o, std::shared_ptr<hls::Log> l) : Base(o), log(l) { ++log->created; }

protected:
  std::shared_ptr<hls::Log> log;
  bool minNorm = false;
  void initializeBuild_(const std::vector<int> & a, const std::vector<int> & b, bool c) override
  {
    ++log->builds;
    minNorm = false;
    Base::initializeBuild_(a, b, c);
  }
  void setMinimumNorm_() override
  {
    minNorm = true;
    Base::setMinimumNorm_();
  }
  bool solve_() override
  {
    ++log->solves;
    if(log->throwNext)
    {
      log->throwNext = false;
      throw std::runtime_error("solver exception");
    }
    hls::Snapshot & s = log->last;
    s = hls::Snapshot();
    s.vars = this->variables().variables();
    s.minNorm = minNorm;
    InSession in;
    in.S.hi = &s;
    in.S.n = this->variables().totalSize();
    in.S.fail = log->failNext;
    log->failNext = false;
    bool ok = Base::solve_();
    VT_CHECK(in.S.calls == 1, "backend-calls", in.S.calls);
    VT_CHECK(ok == s.ok, "backend-status", ok);
    if(minNorm)
    {
      const auto & L = s.lvl.back();
      VT_CHECK(L.onlyEq && L.E.rows() == in.S.n && L.E == MatrixXd::Identity(in.S.n, in.S.n) && L.f.isZero(0), "backend-minimum-norm",
               vt::show(L.E), " ", vt::show(L.f));
      vt::count("minimum_norm_seen_by_backend");
    }
    return ok;
  }
};

template<typename Base, typename Options>
class Factory : public tvm::solver::abstract::LSSolverFactory
{
public:
  Factory(const Options & o, std::shared_ptr<lsq::Log> l) : LSSolverFactory("observed"), o_(o), l_(l) {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<Factory>(o_, l_); }
  std::unique_ptr<tvm::solver::abstract::LeastSquareSolver> createSolver() const override
  { return std::make_unique<LS<Base>>(o_, l_); }

private:
  Options o_;
  std::shared_ptr<lsq::Log> l_;
};

class HFactory : public tvm::solver::abstract::HLSSolverFactory
{
public:
  HFactory(const tvm::solver::LexLSHLSSolverOptions & o, std::shared_ptr<hls::Log> l) : HLSSolverFactory("observed"), o_(o), l_(l) {}
  std::unique_ptr<HLSSolverFactory> clone() const override { return std::make_unique<HFactory>(o_, l_); }
  std::unique_ptr<tvm::solver::abstract::HierarchicalLeastSquareSolver> createSolver() const override
  { return std::make_unique<HLS>(o_, l_); }

private:
  tvm::solver::LexLSHLSSolverOptions o_;
  std::shared_ptr<hls::Log> l_;
};

inline std::unique_ptr<tvm::scheme::WeightedLeastSquares> makeWls(vt::Rng & r, std::shared_ptr<lsq::Log> log,
                                                                  const tvm::scheme::WeightedLeastSquaresOptions & o)
{
  using namespace tvm::solver;
  using tvm::scheme::WeightedLeastSquares;
  const bool verbose = r.b(0.1);
  switch(r.i(0, 5))
  {
    case 0:
    case 1:
    {
      QLDLSSolverOptions q;
      q.verbose(verbose).cholesky(r.b());
      vt::op("QLD cholesky ", *q.cholesky());
      vt::count(*q.cholesky() ? "qld_cholesky" : "qld");
      return std::make_unique<WeightedLeastSquares>(Factory<QLDLeastSquareSolver, QLDLSSolverOptions>(q, log), o);
    }
    case 2:
    case 3:
    {
      QuadprogLSSolverOptions q;
      q.verbose(verbose).cholesky(r.b());
      vt::op("Quadprog cholesky ", *q.cholesky());
      vt::count(*q.cholesky() ? "quadprog_cholesky" : "quadprog");
      return std::make_unique<WeightedLeastSquares>(Factory<QuadprogLeastSquareSolver, QuadprogLSSolverOptions>(q, log), o);
    }
    case 4:
    {
      LSSOLLSSolverOptions q;
      q.verbose(verbose);
      vt::op("solver/LSSOL");
      vt::count("lssol");
      return std::make_unique<WeightedLeastSquares>(Factory<LSSOLLeastSquareSolver, LSSOLLSSolverOptions>(q, log), o);
    }
    default:
    {
      LexLSLSSolverOptions q;
      q.verbose(verbose).warmStart(r.b());
      vt::op("solver/LexLS warm ", *q.warmStart());
      vt::count("lexls");
      return std::make_unique<WeightedLeastSquares>(Factory<LexLSLeastSquareSolver, LexLSLSSolverOptions>(q, log), o);
    }
  }
}

/** The options given by the user reach the library, and the other ones are left to their documented values. */
inline void checkOptions(vt::Rng & r)
{
  using namespace tvm::solver;
  {
    LSSOLLSSolverOptions o;
    Eigen::lssol::Common ref;
    auto & made = Eigen::lssol::Common::made;
    made.clear();
#define ONE(name, v) \
  const bool has_##name = r.b(); \
  const auto val_##name = v; \
  if(has_##name) \
    o.name(val_##name);
    ONE(crashTol, r.d(0, 1))
    ONE(feasibilityMaxIter, r.i(1, 1000))
    ONE(feasibilityTol, r.d(0, 1))
    ONE(infiniteBnd, r.d(1, 1e10))
    ONE(infiniteStep, r.d(1, 1e10))
    ONE(optimalityMaxIter, r.i(1, 1000))
    ONE(persistence, r.b())
    ONE(printLevel, r.i(0, 9))
    ONE(rankTol, r.d(0, 1))
    ONE(warm, r.b())
#undef ONE
    auto s = r.b() ? LSSOLLSSolverFactory(o).createSolver() : LSSOLLSSolverFactory(o).clone()->createSolver();
    VT_CHECK(made.size() == 2, "backend-count", made.size());
    for(auto m : made)
    {
#define ONE(name, def) \
  VT_CHECK(m->name() == (has_##name ? val_##name : def), "option-" #name, m->name(), " given ", has_##name, " ", val_##name);
      ONE(crashTol, ref.crashTol())
      ONE(feasibilityMaxIter, 4 * ref.feasibilityMaxIter())
      ONE(feasibilityTol, 1e-6)
      ONE(infiniteBnd, ref.infiniteBnd())
      ONE(infiniteStep, ref.infiniteStep())
      ONE(optimalityMaxIter, 4 * ref.optimalityMaxIter())
      ONE(persistence, true)
      ONE(printLevel, ref.printLevel())
      ONE(rankTol, ref.rankTol())
      ONE(warm, true)
#undef ONE
    }
    // the default solver is the first one available
    made.clear();
    DefaultLSSolverFactory d{DefaultLSSolverOptions()};
    auto f = d.clone();
    auto ds = r.b() ? f->createSolver() : d.createSolver();
    VT_CHECK(dynamic_cast<LSSOLLeastSquareSolver *>(ds.get()) != nullptr && made.size() == 2, "option-default-solver", made.size());
  }
  {
    LexLSHLSSolverOptions h;
    LexLSLSSolverOptions l;
    LexLS::ParametersLexLSI ref;
    ref.cycling_handling_enabled = true; // the default of the wrapper
    const bool hier = r.b();
#define ONE(name, v) \
  if(r.b()) \
  { \
    ref.name = v; \
    h.name(ref.name); \
    l.name(ref.name); \
  }
#define ALL \
  ONE(max_number_of_factorizations, static_cast<LexLS::Index>(r.i(1, 500))) \
  ONE(tol_linear_dependence, r.d(0, 1)) \
  ONE(tol_wrong_sign_lambda, r.d(0, 1)) \
  ONE(tol_correct_sign_lambda, r.d(0, 1)) \
  ONE(tol_feasibility, r.d(0, 1)) \
  ONE(regularization_type, LexLS::REGULARIZATION_TIKHONOV) \
  ONE(max_number_of_CG_iterations, static_cast<LexLS::Index>(r.i(1, 500))) \
  ONE(variable_regularization_factor, r.d(0, 1)) \
  ONE(cycling_handling_enabled, r.b()) \
  ONE(cycling_max_counter, static_cast<LexLS::Index>(r.i(1, 500))) \
  ONE(cycling_relax_step, r.d(0, 1)) \
  ONE(output_file_name, "name") \
  ONE(modify_x_guess_enabled, r.b()) \
  ONE(modify_type_active_enabled, r.b()) \
  ONE(modify_type_inactive_enabled, r.b()) \
  ONE(set_min_init_ctr_violation, r.b()) \
  ONE(use_phase1_v0, r.b()) \
  ONE(log_working_set_enabled, r.b()) \
  ONE(deactivate_first_wrong_sign, r.b())
    ALL
#undef ONE
    LexLS::internal::LexLSI::last = LexLS::ParametersLexLSI();
    if(hier)
    {
      LexLSHLSSolverFactory f(h);
      auto s = r.b() ? f.createSolver() : f.clone()->createSolver();
    }
    else
    {
      LexLSLSSolverFactory f(l);
      auto s = r.b() ? f.createSolver() : f.clone()->createSolver();
    }
    auto & p = LexLS::internal::LexLSI::last;
#define ONE(name, v) VT_CHECK(p.name == ref.name, "option-" #name, p.name, " for ", ref.name);
    ALL
#undef ONE
#undef ALL
  }
  auto q = QLDLSSolverFactory(QLDLSSolverOptions()).clone()->createSolver();
  auto p = QuadprogLSSolverFactory(QuadprogLSSolverOptions()).clone()->createSolver();
  VT_CHECK(dynamic_cast<QLDLeastSquareSolver *>(q.get()) && dynamic_cast<QuadprogLeastSquareSolver *>(p.get()), "option-solver-type", "");
  vt::count("options_checked");
  vt::nontrivial();
}

inline std::unique_ptr<tvm::scheme::HierarchicalLeastSquares> makeHls(vt::Rng & r, std::shared_ptr<hls::Log> log,
                                                                      const tvm::scheme::HierarchicalLeastSquaresOptions & o)
{
  tvm::solver::LexLSHLSSolverOptions q;
  q.verbose(r.b(0.1)).warmStart(r.b()).feasibleFirstLevel(r.b());
  vt::op("solver/LexLS hierarchical warm ", *q.warmStart(), " feasible ", *q.feasibleFirstLevel());
  vt::count("lexls_hierarchical");
  return std::make_unique<tvm::scheme::HierarchicalLeastSquares>(HFactory(q, log), o);
}
} // namespace wrapped

#pragma once
#include "../recorder.h"
namespace LexLS
{
using Index = unsigned int;
using RealScalar = double;
enum ObjectiveType
{
  GENERAL_OBJECTIVE,
  SIMPLE_BOUNDS_OBJECTIVE
};
enum RegularizationType
{
  REGULARIZATION_NONE,
  REGULARIZATION_TIKHONOV
};
enum ConstraintActivationType
{
  CTR_INACTIVE,
  CTR_ACTIVE_LB,
  CTR_ACTIVE_UB,
  CTR_ACTIVE_EQ,
  CORRECT_SIGN_OF_LAMBDA
};
enum TerminationStatus
{
  TERMINATION_STATUS_UNKNOWN,
  PROBLEM_SOLVED,
  PROBLEM_SOLVED_CYCLING_HANDLING,
  MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED
};
struct ConstraintIdentifier
{
  Index obj_index, ctr_index;
  ConstraintActivationType ctr_type;
};
struct ParametersLexLSI
{
  Index max_number_of_factorizations = 200, max_number_of_CG_iterations = 10, cycling_max_counter = 50;
  RealScalar tol_linear_dependence = 1e-12, tol_wrong_sign_lambda = 1e-8, tol_correct_sign_lambda = 1e-12,
             tol_feasibility = 1e-13, variable_regularization_factor = 0, cycling_relax_step = 1e-8;
  RegularizationType regularization_type = REGULARIZATION_NONE;
  std::string output_file_name;
  bool cycling_handling_enabled = false, modify_x_guess_enabled = false, modify_type_active_enabled = false,
       modify_type_inactive_enabled = false, set_min_init_ctr_violation = true, use_phase1_v0 = false,
       log_working_set_enabled = false, deactivate_first_wrong_sign = false;
};
namespace internal
{
/** Levels of two-sided constraints [M l u], the first one possibly made of bounds on variables [l u]. */
class LexLSI
{
public:
  using MatrixXd = Eigen::MatrixXd;
  using VectorXd = Eigen::VectorXd;
  static inline thread_local ParametersLexLSI last;
  void setParameters(const ParametersLexLSI & p) { param = last = p; }
  void resize(Index n, Index nObj, Index * dims, ObjectiveType * types)
  {
    n_ = static_cast<int>(n);
    obj_.assign(nObj, {});
    for(size_t i = 0; i < obj_.size(); ++i)
    {
      obj_[i].rows = static_cast<Eigen::Index>(dims[i]);
      obj_[i].bounds = types[i] == SIMPLE_BOUNDS_OBJECTIVE;
      VT_CHECK(!obj_[i].bounds || i == 0, "backend-bound-level", i);
    }
    x_ = VectorXd::Zero(n_);
  }
  void reset()
  {
    for(auto & o : obj_)
      o.set = false;
  }
  void setData(Index i, const MatrixXd & data)
  {
    vt::AllowMalloc am;
    Obj & o = at(i);
    VT_CHECK(!o.bounds && data.rows() == o.rows && data.cols() == n_ + 2, "backend-level-size", "level ", i, " ", data.rows(), "x",
             data.cols(), " for ", o.rows, "x", n_ + 2);
    o.data = data;
    o.set = true;
  }
  void setData(Index i, Index * var, const MatrixXd & data)
  {
    vt::AllowMalloc am;
    Obj & o = at(i);
    VT_CHECK(o.bounds && data.rows() == o.rows && data.cols() == 2, "backend-bound-size", "level ", i, " ", data.rows(), "x", data.cols());
    for(Eigen::Index k = 0; k < o.rows; ++k)
      VT_CHECK(var[k] < static_cast<Index>(n_), "backend-bound-index", var[k]);
    o.var.assign(var, var + o.rows);
    o.data = data;
    o.set = true;
  }
  void activate(Index i, Index c, ConstraintActivationType t, bool = true)
  {
    Obj & o = at(i);
    VT_CHECK(static_cast<Eigen::Index>(c) < o.rows, "backend-active-index", "level ", i, " row ", c, " of ", o.rows);
    VT_CHECK(t == CTR_ACTIVE_LB || t == CTR_ACTIVE_UB, "backend-active-type", static_cast<int>(t));
  }
  void set_x0(const VectorXd & x) { VT_CHECK(x.size() == n_, "backend-guess-size", x.size(), " for ", n_); }
  TerminationStatus solve()
  {
    vt::AllowMalloc am;
    auto & S = mock::current();
    VT_CHECK(n_ == S.n, "backend-declared-size", n_, " variables of ", S.n);
    for(auto & o : obj_)
      VT_CHECK(o.set, "backend-level-unset", &o - &obj_[0]);
    bool ok = S.hi ? hierarchical(*S.hi) : leastSquares(*S.ls);
    return ok ? (S.calls % 2 ? PROBLEM_SOLVED : PROBLEM_SOLVED_CYCLING_HANDLING) : MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
  }
  const VectorXd & get_x() const { return x_; }
  void getActiveCtr(Index i, std::vector<ConstraintActivationType> & a) const
  {
    vt::AllowMalloc am;
    const Obj & o = const_cast<LexLSI *>(this)->at(i);
    a.assign(static_cast<size_t>(o.rows), CTR_INACTIVE);
    for(size_t k = 0; k < a.size(); ++k)
      a[k] = k % 3 == 0 ? CTR_ACTIVE_LB : k % 3 == 1 ? CTR_ACTIVE_EQ : CTR_INACTIVE;
  }
  void getActiveCtr_order(std::vector<ConstraintIdentifier> & a) const
  {
    vt::AllowMalloc am;
    for(size_t i = 0; i < obj_.size(); ++i)
      for(Eigen::Index k = 0; k < obj_[i].rows; ++k)
        a.push_back({static_cast<Index>(i), static_cast<Index>(k), k % 2 ? CTR_ACTIVE_UB : CTR_ACTIVE_EQ});
  }
  void print(const char *) const {}
  ParametersLexLSI param;

private:
  struct Obj
  {
    Eigen::Index rows = 0;
    bool bounds = false, set = false;
    MatrixXd data;
    std::vector<Index> var;
  };
  std::vector<Obj> obj_;
  int n_ = 0;
  VectorXd x_;
  Obj & at(Index i)
  {
    VT_CHECK(i < obj_.size(), "backend-level", i, " of ", obj_.size());
    return obj_[i];
  }
  void bounds(const Obj & o, VectorXd & xl, VectorXd & xu) const
  {
    const double inf = std::numeric_limits<double>::infinity();
    xl = VectorXd::Constant(n_, -inf);
    xu = VectorXd::Constant(n_, inf);
    for(size_t k = 0; k < o.var.size(); ++k)
    {
      xl[o.var[k]] = o.data(static_cast<Eigen::Index>(k), 0);
      xu[o.var[k]] = o.data(static_cast<Eigen::Index>(k), 1);
    }
  }
  /** bounds, constraints, objectives (equalities) */
  bool leastSquares(lsq::Snapshot & s)
  {
    VT_CHECK(obj_.size() == 3 && obj_[0].bounds, "backend-levels", obj_.size());
    VectorXd xl, xu;
    bounds(obj_[0], xl, xu);
    mock::Rows R;
    const MatrixXd & C = obj_[1].data;
    for(Eigen::Index k = 0; k < C.rows(); ++k)
      R.two(VectorXd(C.row(k).head(n_).transpose()), C(k, n_), C(k, n_ + 1));
    const MatrixXd & D = obj_[2].data;
    for(Eigen::Index k = 0; k < D.rows(); ++k)
      VT_CHECK(D(k, n_) == D(k, n_ + 1), "backend-objective-row", "row ", k, " is ", D(k, n_), " <= . <= ", D(k, n_ + 1));
    s.A = D.leftCols(n_);
    s.b = D.col(n_);
    return mock::finish(R, xl, xu, x_);
  }
  bool hierarchical(hls::Snapshot & s)
  {
    auto & S = mock::current();
    ++S.calls;
    const double inf = std::numeric_limits<double>::infinity();
    bool eqOnly = true;
    s.xl = VectorXd::Constant(n_, -inf);
    s.xu = VectorXd::Constant(n_, inf);
    for(auto & o : obj_)
    {
      if(o.bounds)
      {
        bounds(o, s.xl, s.xu);
        continue;
      }
      hls::Level L;
      mock::Rows R;
      for(Eigen::Index k = 0; k < o.rows; ++k)
      {
        VectorXd a = o.data.row(k).head(n_).transpose();
        double l = o.data(k, n_), u = o.data(k, n_ + 1);
        R.two(a, l, u);
        if(l == u)
          R.eq(a, l);
        else if(!(l < -lsq::BIG) || !(u > lsq::BIG))
          L.onlyEq = false;
      }
      eqOnly = eqOnly && L.onlyEq;
      L.a = R.g;
      L.h = R.h;
      mock::Rows::store(R.e, R.f, n_, L.E, L.f);
      s.lvl.push_back(L);
    }
    for(int i = 0; i < n_; ++i)
      x_[i] = std::sin(1.7 * static_cast<double>(S.calls) + i + (s.lvl.empty() || s.lvl[0].h.empty() ? 0. : s.lvl[0].h[0]));
    MatrixXd B(n_, n_);
    VectorXd b(n_);
    int nb = 0;
    for(int j = 0; j < n_; ++j)
    {
      if(s.xl[j] == s.xu[j])
      {
        B.row(nb) = VectorXd::Unit(n_, j).transpose();
        b[nb++] = s.xl[j];
      }
      else
        eqOnly = eqOnly && s.xl[j] < -lsq::BIG && s.xu[j] > lsq::BIG;
    }
    if(eqOnly)
      hls::optimum(s, B.topRows(nb), b.head(nb), n_, x_);
    s.ok = !S.fail;
    s.x = x_;
    return s.ok;
  }
};
} // namespace internal
} // namespace LexLS

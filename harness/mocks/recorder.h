// Stand-ins for the optimization libraries the solver wrappers are written for (none is installed here). They follow the
// documented conventions of these libraries, check the sizes they are given, record the problem as the library would
// understand it, and solve it with the reference solver.
#pragma once
#include "../hls.h"

namespace mock
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Session
{
  lsq::Snapshot * ls = nullptr;   // filled by the least-squares backends
  hls::Snapshot * hi = nullptr;   // filled by the hierarchical one
  int n = 0;
  bool hasObj = true, fail = false;
  bool degenerate = false; // the data are not usable because the objective is not of full rank
  long calls = 0;
};
inline thread_local Session * session = nullptr;

inline Session & current()
{
  if(!session)
    throw vt::Violation{"backend-solve-outside", "the backend is called outside of the solve of the wrapper"};
  return *session;
}

/** min 1/2 x'Qx + c'x as a least-squares objective. */
inline void quadratic(const MatrixXd & Q, const VectorXd & c)
{
  auto & S = current();
  auto & s = *S.ls;
  const int n = S.n;
  s.tol = 1e-5; // regularization, and condition number squared
  VT_CHECK(Q.rows() == n && Q.cols() == n, "backend-objective-size", Q.rows(), "x", Q.cols(), " for ", n, " variables");
  VT_CHECK(c.size() == n, "backend-objective-size", "c ", c.size(), " for ", n, " variables");
  if(!Q.allFinite() || !c.allFinite())
  {
    s.A = MatrixXd::Constant(n, n, std::nan(""));
    s.b = VectorXd::Constant(n, std::nan(""));
    return;
  }
  VT_CHECK((Q - Q.transpose()).norm() <= 1e-10 * (1 + Q.norm()), "backend-objective-symmetry", vt::show(Q));
  if(!S.hasObj)
  {
    VT_CHECK(Q.norm() < 1e-8 && c.norm() == 0, "backend-objective-invented", vt::show(Q), " ", vt::show(c));
    s.A.resize(0, n);
    s.b.resize(0);
    return;
  }
  s.A = MatrixXd::Zero(n, n);
  s.b = VectorXd::Zero(n);
  if(n == 0)
    return;
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(Q);
  VectorXd w = es.eigenvalues();
  const double top = std::max(w.maxCoeff(), 0.);
  VT_CHECK(w.minCoeff() >= -1e-10 * (1 + top), "backend-objective-convexity", vt::show(w));
  for(int i = 0; i < n; ++i)
    if(w[i] > 1e-14 * top && w[i] > 0)
    {
      const double q = std::sqrt(w[i]);
      s.A.row(i) = q * es.eigenvectors().col(i).transpose();
      s.b[i] = -es.eigenvectors().col(i).dot(c) / q;
    }
  VT_CHECK((s.A.transpose() * s.b + c).norm() <= 1e-6 * (1 + c.norm()), "backend-objective-unbounded",
           "the linear part is not in the range of the quadratic one: ", vt::show(c));
}

/** Set the constraints C x = d, l <= M x <= u. */
struct Rows
{
  std::vector<VectorXd> g, e;
  std::vector<double> h, f;
  template<typename V>
  void half(const V & a, double v)
  {
    g.emplace_back(a);
    h.push_back(v);
  }
  template<typename V>
  void eq(const V & a, double v)
  {
    e.emplace_back(a);
    f.push_back(v);
  }
  template<typename V>
  void two(const V & a, double l, double u)
  {
    if(!(l < -lsq::BIG))
      half(a, l);
    if(!(u > lsq::BIG))
      half(-a, -u);
  }
  static void store(const std::vector<VectorXd> & v, const std::vector<double> & w, int n, MatrixXd & M, VectorXd & m)
  {
    M.resize(static_cast<Eigen::Index>(v.size()), n);
    m.resize(M.rows());
    for(size_t k = 0; k < v.size(); ++k)
    {
      VT_CHECK(v[k].size() == n, "backend-row-size", v[k].size());
      M.row(static_cast<Eigen::Index>(k)) = v[k].transpose();
      m[static_cast<Eigen::Index>(k)] = w[k];
    }
  }
};

/** Solve what is recorded. */
inline bool finish(const Rows & R, const VectorXd & xl, const VectorXd & xu, VectorXd & res)
{
  vt::AllowMalloc am;
  auto & S = current();
  auto & s = *S.ls;
  const int n = S.n;
  ++S.calls;
  Rows::store(R.g, R.h, n, s.G, s.h);
  Rows::store(R.e, R.f, n, s.C, s.d);
  s.xl = xl;
  s.xu = xu;
  std::vector<VectorXd> g = R.g;
  std::vector<double> h = R.h;
  VT_CHECK(xl.size() == n && xu.size() == n, "backend-bound-size", xl.size(), " ", xu.size());
  for(int i = 0; i < n; ++i)
  {
    if(xl[i] > -lsq::BIG)
    {
      g.push_back(VectorXd::Unit(n, i));
      h.push_back(xl[i]);
    }
    if(xu[i] < lsq::BIG)
    {
      g.push_back(-VectorXd::Unit(n, i));
      h.push_back(-xu[i]);
    }
  }
  MatrixXd Gb;
  VectorXd hb;
  Rows::store(g, h, n, Gb, hb);
  bool finite = s.A.allFinite() && s.b.allFinite() && s.C.allFinite() && s.d.allFinite() && Gb.allFinite() && hb.allFinite();
  res = VectorXd::Zero(n);
  s.ok = finite && lsq::solve(s.A, s.b, s.C, s.d, Gb, hb, res);
  s.accurate = s.ok && (s.C * res - s.d).norm() < 1e-7 * (1 + res.norm())
               && (Gb.rows() == 0 || (hb - Gb * res).maxCoeff() < 1e-7 * (1 + res.norm()));
  if(S.fail)
    s.ok = false;
  s.x = res;
  return s.ok;
}
} // namespace mock

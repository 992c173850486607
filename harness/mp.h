// Truth of matrix properties: compares every claim of a MatrixProperties with the actual matrix.
#pragma once
#include "vt.h"
#include <tvm/internal/MatrixProperties.h>
#include <Eigen/Eigenvalues>

namespace mp
{
using namespace vt;
using MP = tvm::internal::MatrixProperties;
using Eigen::MatrixXd;
inline const char * SN[] = {"GEN", "LOW", "UPP", "DIAG", "MULT", "ID", "MID", "ZERO"};
inline const char * PN[] = {"NA", "PSD", "PD", "NSD", "ND", "IND", "INZ"};

struct Truth
{
  bool square, low, upp, diag, mult, id, mid, zero, sym, inv;
  bool psd = false, pd = false, nsd = false, nd = false, inz = false;
};
const double T = 1e-8;

inline Truth truth(const MatrixXd & A)
{
  Truth t;
  const auto r = A.rows(), c = A.cols();
  t.square = r == c;
  t.zero = A.isZero(T);
  auto stri = [&](bool up) {
    for(int i = 0; i < r; ++i)
      for(int j = 0; j < c; ++j)
        if((up ? j > i : j < i) && std::abs(A(i, j)) > T)
          return false;
    return true;
  };
  t.low = stri(true);
  t.upp = stri(false);
  t.diag = t.low && t.upp;
  t.mult = t.diag;
  if(t.mult)
  {
    for(int i = 0; i < std::min(r, c); ++i)
      if(std::abs(A(i, i) - A(0, 0)) > T)
        t.mult = false;
  }
  t.id = t.square && (A - MatrixXd::Identity(r, c)).isZero(T);
  t.mid = t.square && (A + MatrixXd::Identity(r, c)).isZero(T);
  t.sym = t.square && (A - A.transpose()).isZero(T);
  t.inv = t.square && std::abs(A.determinant()) > T;
  if(t.sym)
  {
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(A);
    auto e = es.eigenvalues();
    double mn = e.minCoeff(), mx = e.maxCoeff();
    t.psd = mn > -T;
    t.pd = mn > T;
    t.nsd = mx < T;
    t.nd = mx < -T;
    t.inz = e.cwiseAbs().minCoeff() > T;
  }
  return t;
}

inline bool shapeHolds(MP::Shape s, const Truth & t)
{
  switch(s)
  {
    case MP::GENERAL: return true;
    case MP::LOWER_TRIANGULAR: return t.low;
    case MP::UPPER_TRIANGULAR: return t.upp;
    case MP::DIAGONAL: return t.diag;
    case MP::MULTIPLE_OF_IDENTITY: return t.mult;
    case MP::IDENTITY: return t.id;
    case MP::MINUS_IDENTITY: return t.mid;
    case MP::ZERO: return t.zero;
  }
  return false;
}
inline bool posHolds(MP::Positiveness p, const Truth & t)
{
  switch(p)
  {
    case MP::NA: return true;
    case MP::POSITIVE_SEMIDEFINITE: return t.psd;
    case MP::POSITIVE_DEFINITE: return t.pd;
    case MP::NEGATIVE_SEMIDEFINITE: return t.nsd;
    case MP::NEGATIVE_DEFINITE: return t.nd;
    case MP::INDEFINITE: return t.sym;
    case MP::NON_ZERO_INDEFINITE: return t.sym && t.inz;
  }
  return false;
}

inline std::string desc(const MP & p)
{
  return str(SN[p.shape()], "/", PN[p.positiveness()], p.isConstant() ? "/const" : "", p.isInvertible() ? "/inv" : "");
}

/** Everything p claims must be true of A. */
inline void checkSound(const MP & p, const MatrixXd & A, const std::string & what, const std::string & id = "P01")
{
  Truth t = truth(A);
  auto ctx = [&] { return str(what, ": claims ", desc(p), " of ", show(A)); };
  VT_CHECK(shapeHolds(p.shape(), t), id + "-shape", ctx());
  // a non-square zero matrix is formally reported as symmetric: only square matrices have a positiveness
  if(t.square)
  {
    VT_CHECK(posHolds(p.positiveness(), t), id + "-positiveness", ctx());
    VT_CHECK(!p.isSymmetric() || t.sym, id + "-symmetric", ctx());
    VT_CHECK(!p.isPositiveSemiDefinite() || t.psd, id + "-psd", ctx());
    VT_CHECK(!p.isPositiveDefinite() || t.pd, id + "-pd", ctx());
    VT_CHECK(!p.isNegativeSemidefinite() || t.nsd, id + "-nsd", ctx());
    VT_CHECK(!p.isNegativeDefinite() || t.nd, id + "-nd", ctx());
    VT_CHECK(!p.isNonZeroIndefinite() || (t.sym && t.inz), id + "-inz", ctx());
    VT_CHECK(!p.isIndefinite() || t.sym, id + "-ind", ctx());
  }
  VT_CHECK(!p.isInvertible() || t.inv, id + "-invertible", ctx());
  VT_CHECK(p.isTriangular() ? (t.low || t.upp) : true, id + "-tri", ctx());
  VT_CHECK(!p.isLowerTriangular() || t.low, id + "-low", ctx());
  VT_CHECK(!p.isUpperTriangular() || t.upp, id + "-upp", ctx());
  VT_CHECK(!p.isDiagonal() || t.diag, id + "-diag", ctx());
  VT_CHECK(!p.isMultipleOfIdentity() || t.mult, id + "-mult", ctx());
  VT_CHECK(!p.isIdentity() || t.id, id + "-id", ctx());
  VT_CHECK(!p.isMinusIdentity() || t.mid, id + "-mid", ctx());
  VT_CHECK(!p.isZero() || t.zero, id + "-zero", ctx());
  // internal coherence
  VT_CHECK(bool(p.constness()) == p.isConstant() && bool(p.invertibility()) == p.isInvertible(), id + "-coherent", ctx());
  VT_CHECK(!(p.isIdentity() || p.isMinusIdentity() || p.isZero()) || p.isConstant(), id + "-const-deduced", ctx());
  VT_CHECK(!(p.isIdentity() || p.isMinusIdentity() || p.isPositiveDefinite() || p.isNegativeDefinite()) || p.isInvertible(),
           id + "-inv-deduced", ctx());
  VT_CHECK(!p.isDiagonal() || (p.isSymmetric() && p.isLowerTriangular() && p.isUpperTriangular() && p.isTriangular()),
           id + "-diag-deduced", ctx());
  VT_CHECK(!p.isMultipleOfIdentity() || p.isDiagonal(), id + "-mult-deduced", ctx());
}

} // namespace mp

// P01: algebra of matrix properties: whatever is declared of the operands truthfully stays true of the result.
#include "mp.h"
#include <tvm/internal/MatrixProperties.h>
#include <tvm/internal/MatrixWithProperties.h>
using namespace vt;
using tvm::internal::MatrixProperties;
using tvm::internal::MatrixWithProperties;
using namespace mp;
using Eigen::MatrixXd;

namespace
{
struct Obj
{
  MatrixXd A;
  MP p;
  bool cst;
};

MatrixXd randSym(Rng & r, int n, int kind) // 0 psd,1 pd,2 nsd,3 nd,4 ind,5 inz
{
  MatrixXd Q = Eigen::HouseholderQR<MatrixXd>(r.mat(n, n)).householderQ();
  Eigen::VectorXd d(n);
  for(int i = 0; i < n; ++i)
  {
    double v = r.i(1, 3);
    switch(kind)
    {
      case 0: d[i] = r.b() ? 0 : v; break;
      case 1: d[i] = v; break;
      case 2: d[i] = r.b() ? 0 : -v; break;
      case 3: d[i] = -v; break;
      case 4: d[i] = r.i(-2, 2); break;
      default: d[i] = r.b() ? v : -v;
    }
  }
  MatrixXd A = Q * d.asDiagonal() * Q.transpose();
  return (A + A.transpose()) / 2;
}

MatrixXd randMat(Rng & r, int n)
{
  switch(r.i(0, 9))
  {
    case 0: return r.dmat(n, n);
    case 1: return MatrixXd(r.dmat(n, n).triangularView<Eigen::Lower>());
    case 2: return MatrixXd(r.dmat(n, n).triangularView<Eigen::Upper>());
    case 3: {
      Eigen::VectorXd d(n);
      int k = r.i(0, 5);
      for(int i = 0; i < n; ++i)
      {
        double v = r.i(1, 3);
        d[i] = k == 0 ? v : k == 1 ? -v : k == 2 ? (r.b() ? 0 : v) : k == 3 ? (r.b() ? 0 : -v) : k == 4 ? (r.b() ? v : -v)
                                                                                                    : r.i(-2, 2);
      }
      return d.asDiagonal();
    }
    case 4: return r.i(-3, 3) * MatrixXd::Identity(n, n);
    case 5: return MatrixXd::Identity(n, n);
    case 6: return -MatrixXd::Identity(n, n);
    case 7: return MatrixXd::Zero(n, n);
    default: return randSym(r, n, r.i(0, 5));
  }
}

/** A random truthful declaration. */
Obj randObj(Rng & r, int n)
{
  Obj o;
  o.A = randMat(r, n);
  Truth t = truth(o.A);
  std::vector<MP::Shape> shapes;
  for(int s = 0; s < 8; ++s)
    if(shapeHolds(static_cast<MP::Shape>(s), t))
      shapes.push_back(static_cast<MP::Shape>(s));
  std::vector<MP::Positiveness> poss;
  for(int s = 0; s < 7; ++s)
    if(posHolds(static_cast<MP::Positiveness>(s), t))
      poss.push_back(static_cast<MP::Positiveness>(s));
  auto shape = r.b(0.5) ? shapes.back() : r.pick(shapes);
  auto pos = r.pick(poss);
  bool trulyConst = shape == MP::IDENTITY || shape == MP::MINUS_IDENTITY || shape == MP::ZERO;
  o.cst = r.b() || trulyConst;
  bool useShape = r.b(0.9), usePos = r.b(0.6), useC = r.b(0.6), useI = r.b(0.5);
  if(!useShape)
    shape = MP::GENERAL;
  if(!usePos)
    pos = MP::NA;
  // argument order is free
  MP::Constness c(o.cst);
  MP::Invertibility i(t.inv);
  int order = r.i(0, 2);
  if(useC && useI)
    o.p = order == 0 ? MP(shape, pos, c, i) : order == 1 ? MP(i, c, pos, shape) : MP(c, shape, i, pos);
  else if(useC)
    o.p = order == 0 ? MP(shape, pos, c) : order == 1 ? MP(c, pos, shape) : MP(c, shape, pos);
  else if(useI)
    o.p = order == 0 ? MP(shape, pos, i) : order == 1 ? MP(i, pos, shape) : MP(i, shape, pos);
  else
    o.p = order == 0 ? MP(shape, pos) : MP(pos, shape);
  op("decl ", SN[shape], ",", PN[pos], useC ? str(",c", o.cst) : "", useI ? str(",i", t.inv) : "", " n", n);
  checkSound(o.p, o.A, "declaration");
  // nothing declared is lost
  std::string ctx = str("declared ", SN[shape], " ", PN[pos], " got ", desc(o.p));
  bool okShape = false;
  switch(shape)
  {
    case MP::GENERAL: okShape = true; break;
    case MP::LOWER_TRIANGULAR: okShape = o.p.isLowerTriangular(); break;
    case MP::UPPER_TRIANGULAR: okShape = o.p.isUpperTriangular(); break;
    case MP::DIAGONAL: okShape = o.p.isDiagonal(); break;
    case MP::MULTIPLE_OF_IDENTITY: okShape = o.p.isMultipleOfIdentity(); break;
    case MP::IDENTITY: okShape = o.p.isIdentity(); break;
    case MP::MINUS_IDENTITY: okShape = o.p.isMinusIdentity(); break;
    case MP::ZERO: okShape = o.p.isZero(); break;
  }
  VT_CHECK(okShape, "P01-declared-shape-lost", ctx);
  bool okPos = false;
  switch(pos)
  {
    case MP::NA: okPos = true; break;
    case MP::POSITIVE_SEMIDEFINITE: okPos = o.p.isPositiveSemiDefinite(); break;
    case MP::POSITIVE_DEFINITE: okPos = o.p.isPositiveDefinite(); break;
    case MP::NEGATIVE_SEMIDEFINITE: okPos = o.p.isNegativeSemidefinite(); break;
    case MP::NEGATIVE_DEFINITE: okPos = o.p.isNegativeDefinite(); break;
    case MP::INDEFINITE: okPos = o.p.isIndefinite() && o.p.isSymmetric(); break;
    case MP::NON_ZERO_INDEFINITE: okPos = o.p.isNonZeroIndefinite(); break;
  }
  VT_CHECK(okPos, "P01-declared-positiveness-lost", ctx);
  if(useC)
    VT_CHECK(o.p.isConstant() == o.cst, "P01-declared-constness", ctx);
  else
    VT_CHECK(o.p.isConstant() == trulyConst || !useShape, "P01-default-constness", ctx);
  if(useI && t.inv)
    VT_CHECK(o.p.isInvertible(), "P01-declared-invertibility-lost", ctx);
  // documented deductions
  if(useI && t.inv && pos == MP::POSITIVE_SEMIDEFINITE)
    VT_CHECK(o.p.isPositiveDefinite(), "P01-promotion", ctx);
  if(useI && t.inv && pos == MP::NEGATIVE_SEMIDEFINITE)
    VT_CHECK(o.p.isNegativeDefinite(), "P01-promotion", ctx);
  if((shape == MP::LOWER_TRIANGULAR || shape == MP::UPPER_TRIANGULAR) && pos != MP::NA)
    VT_CHECK(o.p.isDiagonal(), "P01-triangular-symmetric", ctx);
  if(!o.p.isConstant())
    o.cst = false;
  return o;
}

MP::Shape sumShape(MP::Shape a, MP::Shape b)
{
  if(a > b)
    std::swap(a, b);
  if(b == MP::ZERO)
    return a;
  if(a == MP::IDENTITY && b == MP::MINUS_IDENTITY)
    return MP::ZERO;
  if(a >= MP::MULTIPLE_OF_IDENTITY)
    return MP::MULTIPLE_OF_IDENTITY;
  if(a == MP::LOWER_TRIANGULAR && b == MP::UPPER_TRIANGULAR)
    return MP::GENERAL;
  return a;
}
MP::Shape prodShape(MP::Shape a, MP::Shape b)
{
  if(a > b)
    std::swap(a, b);
  if(b == MP::ZERO)
    return MP::ZERO;
  if(a == MP::IDENTITY || a == MP::MINUS_IDENTITY)
    return a == b ? MP::IDENTITY : MP::MINUS_IDENTITY;
  if(a == MP::LOWER_TRIANGULAR && b == MP::UPPER_TRIANGULAR)
    return MP::GENERAL;
  return a;
}
/** Is shape got at least as informative as want? */
bool atLeast(MP::Shape got, MP::Shape want)
{
  if(got == want)
    return true;
  Truth t{};
  (void)t;
  switch(want)
  {
    case MP::GENERAL: return true;
    case MP::LOWER_TRIANGULAR: return got >= MP::DIAGONAL;
    case MP::UPPER_TRIANGULAR: return got >= MP::DIAGONAL;
    case MP::DIAGONAL: return got >= MP::DIAGONAL;
    case MP::MULTIPLE_OF_IDENTITY: return got >= MP::MULTIPLE_OF_IDENTITY;
    default: return false;
  }
}

void algebra(Rng & r)
{
  int n = r.i(1, 4);
  std::vector<Obj> pool;
  for(int k = 0; k < 3; ++k)
    pool.push_back(randObj(r, n));
  int ops = r.i(2, 6);
  for(int k = 0; k < ops; ++k)
  {
    const Obj a = r.pick(pool), b = r.pick(pool);
    Obj c;
    int what = r.i(0, 4);
    static const double D[] = {-2, -1, -0.5, 0, 0.5, 1, 2};
    double d = D[r.i(0, 6)];
    std::string w;
    MP::Shape want = MP::GENERAL;
    try
    {
      switch(what)
      {
        case 0:
          w = str("-(", desc(a.p), ")");
          op(w);
          c.A = -a.A;
          c.p = -a.p;
          c.cst = a.cst;
          want = a.p.isIdentity() ? MP::MINUS_IDENTITY : a.p.isMinusIdentity() ? MP::IDENTITY : a.p.shape();
          VT_CHECK(a.p.isInvertible() == c.p.isInvertible(), "P01-op-invertibility", w);
          VT_CHECK(a.p.isSymmetric() == c.p.isSymmetric(), "P01-op-symmetry", w);
          VT_CHECK(!a.p.isPositiveDefinite() || c.p.isNegativeDefinite(), "P01-op-positiveness", w);
          VT_CHECK(!a.p.isNegativeDefinite() || c.p.isPositiveDefinite(), "P01-op-positiveness", w);
          VT_CHECK(!a.p.isPositiveSemiDefinite() || c.p.isNegativeSemidefinite(), "P01-op-positiveness", w);
          VT_CHECK(!a.p.isNegativeSemidefinite() || c.p.isPositiveSemiDefinite(), "P01-op-positiveness", w);
          break;
        case 1:
          w = str(d, "*(", desc(a.p), ")");
          op(w);
          c.A = d * a.A;
          c.p = d * a.p;
          c.cst = a.cst || d == 0;
          want = d == 0                      ? MP::ZERO
                 : a.p.isZero()              ? MP::ZERO
                 : a.p.isIdentity()          ? (d == 1 ? MP::IDENTITY : d == -1 ? MP::MINUS_IDENTITY : MP::MULTIPLE_OF_IDENTITY)
                 : a.p.isMinusIdentity()     ? (d == -1 ? MP::IDENTITY : d == 1 ? MP::MINUS_IDENTITY : MP::MULTIPLE_OF_IDENTITY)
                                             : a.p.shape();
          if(d != 0)
            VT_CHECK(a.p.isInvertible() == c.p.isInvertible(), "P01-op-invertibility", w);
          if(d > 0)
            VT_CHECK(!a.p.isPositiveDefinite() || c.p.isPositiveDefinite(), "P01-op-positiveness", w);
          if(d < 0)
            VT_CHECK(!a.p.isPositiveDefinite() || c.p.isNegativeDefinite(), "P01-op-positiveness", w);
          break;
        case 2:
          w = str("(", desc(a.p), ")+(", desc(b.p), ")");
          op(w);
          c.A = a.A + b.A;
          c.p = a.p + b.p;
          c.cst = a.cst && b.cst;
          want = sumShape(a.p.shape(), b.p.shape());
          VT_CHECK(!(a.p.isPositiveDefinite() && b.p.isPositiveDefinite()) || c.p.isPositiveDefinite(),
                   "P01-op-positiveness", w);
          VT_CHECK(!(a.p.isNegativeDefinite() && b.p.isNegativeDefinite()) || c.p.isNegativeDefinite(),
                   "P01-op-positiveness", w);
          break;
        case 3:
          w = str("(", desc(a.p), ")-(", desc(b.p), ")");
          op(w);
          c.A = a.A - b.A;
          c.p = a.p - b.p;
          c.cst = a.cst && b.cst;
          want = sumShape(a.p.shape(), b.p.isIdentity()        ? MP::MINUS_IDENTITY
                                       : b.p.isMinusIdentity() ? MP::IDENTITY
                                                               : b.p.shape());
          VT_CHECK(!(a.p.isPositiveDefinite() && b.p.isNegativeDefinite()) || c.p.isPositiveDefinite(),
                   "P01-op-positiveness", w);
          break;
        default:
          w = str("(", desc(a.p), ")*(", desc(b.p), ")");
          op(w);
          c.A = a.A * b.A;
          c.p = a.p * b.p;
          c.cst = (a.cst && b.cst) || a.p.isZero() || b.p.isZero();
          want = prodShape(a.p.shape(), b.p.shape());
          if(!(a.p.isZero() || b.p.isZero()))
            VT_CHECK((a.p.isInvertible() && b.p.isInvertible()) <= c.p.isInvertible(), "P01-op-invertibility", w);
      }
    }
    catch(const Violation &)
    {
      throw;
    }
    catch(const std::exception & e)
    {
      fail("P01-op-throws", str(w, " on valid operands: ", e.what()));
    }
    count("operations");
    w += str(" A=", show(a.A), " B=", show(b.A));
    checkSound(c.p, c.A, w);
    VT_CHECK(atLeast(c.p.shape(), want), "P01-op-shape-lost", w, " want ", SN[want], " got ", desc(c.p));
    // a result is constant if and only if its operands are, or it is the constant that its shape says
    bool deduced = c.p.isIdentity() || c.p.isMinusIdentity() || c.p.isZero();
    VT_CHECK(c.p.isConstant() == (c.cst || deduced), "P01-op-constness", w, " got ", desc(c.p));
    c.cst = c.p.isConstant();
    pool.push_back(c);
    if(pool.size() > 6)
      pool.erase(pool.begin() + r.i(0, 5));
  }
  nontrivial();
}

/** Contradicting declarations are refused, and only them. */
void contradictions(Rng & r)
{
  auto shape = static_cast<MP::Shape>(r.i(0, 7));
  auto pos = static_cast<MP::Positiveness>(r.i(0, 6));
  bool useC = r.b(), useI = r.b(), c = r.b(), i = r.b();
  bool isI = shape == MP::IDENTITY, isM = shape == MP::MINUS_IDENTITY, isZ = shape == MP::ZERO;
  bool bad = (isI && (pos == MP::NEGATIVE_DEFINITE || pos == MP::NEGATIVE_SEMIDEFINITE))
             || (isM && (pos == MP::POSITIVE_DEFINITE || pos == MP::POSITIVE_SEMIDEFINITE))
             || (isZ && (pos == MP::POSITIVE_DEFINITE || pos == MP::NEGATIVE_DEFINITE || pos == MP::NON_ZERO_INDEFINITE));
  if(useC && !c && (isI || isM || isZ))
    bad = true;
  if(useI && i && isZ)
    bad = true;
  if(useI && !i
     && (isI || isM || pos == MP::POSITIVE_DEFINITE || pos == MP::NEGATIVE_DEFINITE || pos == MP::NON_ZERO_INDEFINITE))
    bad = true;
  op("ctor ", SN[shape], " ", PN[pos], " ", useC, c, useI, i);
  MP::Constness cc(c);
  MP::Invertibility ii(i);
  MP p;
  bool th = throws([&] {
    p = useC && useI ? MP(shape, pos, cc, ii) : useC ? MP(cc, pos, shape) : useI ? MP(shape, ii, pos) : MP(pos, shape);
  });
  VT_CHECK(th == bad, "P01-contradiction", SN[shape], " ", PN[pos], " c", useC, c, " i", useI, i, " threw ", th);
  count(bad ? "contradictions_refused" : "declarations_accepted");
  nontrivial();
}

/** A matrix loses its declared properties when it is assigned or modified, unless asked otherwise. */
void withProps(Rng & r)
{
  int n = r.i(1, 4);
  Obj o = randObj(r, n);
  MatrixWithProperties M(o.A);
  M.properties(o.p);
  auto eq = [](const MP & a, const MP & b) {
    return a.shape() == b.shape() && a.positiveness() == b.positiveness() && a.isConstant() == b.isConstant()
           && a.isInvertible() == b.isInvertible() && a.isSymmetric() == b.isSymmetric();
  };
  VT_CHECK(eq(M.properties(), o.p) && same(M, o.A), "P01-carry", desc(M.properties()));
  MatrixWithProperties C(M);
  VT_CHECK(eq(C.properties(), o.p) && same(C, o.A), "P01-copy", desc(C.properties()));
  MatrixXd B = r.dmat(n, n);
  int k = r.i(0, 4);
  op("assign ", k);
  MatrixXd want = B;
  bool keep = false;
  switch(k)
  {
    case 0: M = B; break;
    case 1: M += B; want = o.A + B; break;
    case 2: M -= B; want = o.A - B; break;
    case 3: M.keepProperties(true) = B; keep = true; break;
    default: M.keepProperties(false) = B;
  }
  VT_CHECK(same(M, want), "P01-assign-value", show(M));
  VT_CHECK(eq(M.properties(), keep ? o.p : MP()), "P01-assign-properties", "kind ", k, " got ", desc(M.properties()));
  MP q = randObj(r, n).p;
  M.properties(q);
  VT_CHECK(eq(M.properties(), q), "P01-set-properties", desc(M.properties()));
  VT_CHECK(eq(C.properties(), o.p), "P01-copy-independent", desc(C.properties()));
  nontrivial();
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, [](Rng & r) {
    int k = r.i(0, 9);
    if(k < 7)
      algebra(r);
    else if(k < 9)
      contradictions(r);
    else
      withProps(r);
  });
}

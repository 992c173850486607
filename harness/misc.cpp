// Small objects.
//  -DFOCUS=1 K01 spaces, ranges, clocks, planes   2 K02 elements of matrices   3 M01 saved permissions
#include "pool.h"
#include <tvm/Clock.h>
#include <tvm/Range.h>
#include <tvm/diagnostic/matrix.h>
#include <tvm/geometry/Plane.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace
{
#if FOCUS == 1
struct SpaceM
{
  Space s;
  int m, r, t;
  bool euclidean;
  int type; // -1: unknown
};

SpaceM anySpace(Rng & r)
{
  switch(r.i(0, 6))
  {
    case 0:
    {
      int n = r.i(0, 5);
      return {Space(n), n, n, n, true, static_cast<int>(Space::Type::Euclidean)};
    }
    case 1:
    {
      int n = r.i(0, 5), k = n + r.i(0, 2);
      return {Space(n, k), n, k, n, n == k, static_cast<int>(n == k ? Space::Type::Euclidean : Space::Type::Unspecified)};
    }
    case 2:
    {
      int n = r.i(0, 5), k = n + r.i(0, 2), t = n + r.i(0, 2);
      bool e = n == k && n == t;
      return {Space(n, k, t), n, k, t, e, static_cast<int>(e ? Space::Type::Euclidean : Space::Type::Unspecified)};
    }
    case 3:
    {
      int n = r.i(0, 5);
      return {Space(Space::Type::Euclidean, n), n, n, n, true, static_cast<int>(Space::Type::Euclidean)};
    }
    case 4:
      return {Space(Space::Type::SO3), 3, 4, 3, false, static_cast<int>(Space::Type::SO3)};
    case 5:
      return {Space(Space::Type::SE3), 6, 7, 6, false, static_cast<int>(Space::Type::SE3)};
    default:
    {
      auto a = anySpace(r), b = anySpace(r);
      bool e = a.euclidean && b.euclidean;
      count("products");
      return {a.s * b.s, a.m + b.m, a.r + b.r, a.t + b.t, e, static_cast<int>(e ? Space::Type::Euclidean : Space::Type::Unspecified)};
    }
  }
}

void checkSpace(const SpaceM & s)
{
  VT_CHECK(s.s.size() == s.m && s.s.rSize() == s.r && s.s.tSize() == s.t, "K01-space-size", s.s.sizeAsString(), " instead of ", s.m, s.r, s.t);
  VT_CHECK(s.s.isEuclidean() == s.euclidean, "K01-space-euclidean", s.s.sizeAsString());
  VT_CHECK(static_cast<int>(s.s.type()) == s.type, "K01-space-type", s.s.sizeAsString(), " type ", static_cast<int>(s.s.type()));
  VT_CHECK(s.s.sizeAsString() == str("(", s.m, ", ", s.r, ", ", s.t, ")"), "K01-space-string", s.s.sizeAsString());
  VariablePtr v = s.s.createVariable("v");
  VT_CHECK(v->size() == s.r && dot(v)->size() == s.t && v->space() == s.s, "K01-space-variable", v->size());
}

void caseSpaces(Rng & r)
{
  std::vector<SpaceM> ss;
  int n = r.i(2, 5);
  for(int i = 0; i < n; ++i)
    ss.push_back(anySpace(r));
  if(r.b())
  {
    auto c = ss[0];
    ss.push_back(c);
  }
  if(r.b()) // assignment
  {
    ss.push_back(anySpace(r));
    ss.back() = ss[0];
    ss.back().s = ss[0].s;
  }
  for(auto & a : ss)
  {
    op("space ", a.m, " ", a.r, " ", a.t, " ", a.type);
    checkSpace(a);
    for(auto & b : ss)
    {
      bool eq = a.m == b.m && a.r == b.r && a.t == b.t && a.type == b.type;
      VT_CHECK((a.s == b.s) == eq && (a.s != b.s) == !eq, "K01-space-equality", a.s.sizeAsString(), b.s.sizeAsString());
      bool le = a.m <= b.m && a.r <= b.r && a.t <= b.t;
      VT_CHECK((a.s <= b.s) == le, "K01-space-order", a.s.sizeAsString(), b.s.sizeAsString());
      SpaceM p{a.s * b.s, a.m + b.m, a.r + b.r, a.t + b.t, a.euclidean && b.euclidean,
               static_cast<int>(a.euclidean && b.euclidean ? Space::Type::Euclidean : Space::Type::Unspecified)};
      checkSpace(p);
      for(auto & c : ss)
        VT_CHECK((a.s * b.s) * c.s == a.s * (b.s * c.s), "K01-space-product", a.s.sizeAsString(), b.s.sizeAsString(), c.s.sizeAsString());
    }
  }
  VT_CHECK(throws([] { Space s(Space::Type::Unspecified); }), "K01-space-accepted", "unspecified");
  VT_CHECK(throws([] { Space s(Space::Type::Unspecified, 3); }), "K01-space-accepted", "unspecified");
  count("spaces", n);
}

void caseRanges(Rng & r)
{
  auto any = [&]() { return Range(r.i(-3, 6), r.i(0, 5)); };
  for(int k = 0; k < 10; ++k)
  {
    Range a = any(), b = any();
    if(r.b(0.2))
      b = a;
    op("ranges ", a.start, "+", a.dim, " ", b.start, "+", b.dim);
    auto in = [](const Range & x, int i) { return i >= x.start && i < x.start + x.dim; };
    int common = 0;
    bool all = true;
    for(int i = -5; i < 15; ++i)
    {
      VT_CHECK(a.contains(i) == in(a, i), "K01-range-contains", i);
      common += in(a, i) && in(b, i);
      if(in(b, i) && !in(a, i))
        all = false;
    }
    VT_CHECK(a.end() == a.start + a.dim, "K01-range-end", a.end());
    if(b.dim == 0)
      all = in(a, b.start); // documented
    VT_CHECK(a.contains(b) == all, "K01-range-contains", "range");
    if(a.dim && b.dim)
      VT_CHECK(a.intersects(b) == (common > 0) && b.intersects(a) == (common > 0), "K01-range-intersects", common);
    bool eq = a.start == b.start && a.dim == b.dim;
    VT_CHECK((a == b) == eq && (a != b) == !eq, "K01-range-equality", eq);
    int s = r.i(-3, 3);
    VT_CHECK(a + s == Range(a.start + s, a.dim) && a - s == Range(a.start - s, a.dim), "K01-range-shift", s);
    if(all)
    {
      Range c = a.relativeRange(b);
      VT_CHECK(c.start + a.start == b.start && c.dim == b.dim, "K01-range-relative", c.start);
    }
    count("ranges");
  }
  Range d;
  VT_CHECK(d.start == 0 && d.dim == 0, "K01-range-default", d.dim);
}

/** Moves planes. */
class Integrator : public graph::abstract::Node<Integrator>
{
public:
  SET_OUTPUTS(Integrator, P, V, A)
  SET_UPDATES(Integrator, P, V, A)
  Integrator()
  {
    registerUpdates(Update::P, &Integrator::p, Update::V, &Integrator::v, Update::A, &Integrator::a);
    addOutputDependency<Integrator>(Output::P, Update::P);
    addOutputDependency<Integrator>(Output::V, Update::V);
    addOutputDependency<Integrator>(Output::A, Update::A);
  }
  void p()
  {
    if(plane)
      plane->position(n[0], x[0]);
    ++calls[0];
  }
  void v()
  {
    if(plane)
      plane->velocity(n[1], x[1]);
    ++calls[1];
  }
  void a()
  {
    if(plane)
      plane->acceleration(n[2], x[2]);
    ++calls[2];
  }
  geometry::Plane * plane = nullptr;
  Vector3d n[3], x[3];
  int calls[3] = {0, 0, 0};
};

/** Uses a plane: distance of a point and its derivatives. */
class Reader : public graph::abstract::Node<Reader>
{
public:
  SET_OUTPUTS(Reader, Out)
  SET_UPDATES(Reader, Read)
  Reader(std::shared_ptr<geometry::Plane> p, int which) : plane(p)
  {
    registerUpdates(Update::Read, &Reader::read);
    addOutputDependency<Reader>(Output::Out, Update::Read);
    using O = geometry::Plane::Output;
    if(which & 1)
      addInputDependency<Reader>(Update::Read, p, O::Position);
    if(which & 2)
      addInputDependency<Reader>(Update::Read, p, O::Velocity);
    if(which & 4)
      addInputDependency<Reader>(Update::Read, p, O::Acceleration);
  }
  void read()
  {
    n = {plane->normal(), plane->normalDot(), plane->normalDotDot()};
    x = {plane->point(), plane->speed(), plane->acceleration()};
    offset = plane->offset();
    ++calls;
  }
  std::shared_ptr<geometry::Plane> plane;
  std::array<Vector3d, 3> n, x;
  double offset = 0;
  int calls = 0;
};

void casePlanes(Rng & r)
{
  auto v3 = [&]() -> Vector3d { return r.dvec(3); };
  std::array<Vector3d, 3> n, x;
  for(int k = 0; k < 3; ++k)
    n[static_cast<size_t>(k)] = x[static_cast<size_t>(k)] = Vector3d::Zero();
  double o;
  std::shared_ptr<geometry::Plane> p;
  n[0] = v3();
  if(r.b())
  {
    o = r.dyadic();
    p = std::make_shared<geometry::Plane>(n[0], o);
  }
  else
  {
    x[0] = v3();
    o = -n[0].dot(x[0]);
    p = std::make_shared<geometry::Plane>(n[0], x[0]);
  }
  auto check = [&](const char * what) {
    VT_CHECK(same(p->normal(), n[0]) && same(p->normalDot(), n[1]) && same(p->normalDotDot(), n[2]), "K01-plane-normal", what);
    VT_CHECK(same(p->point(), x[0]) && same(p->speed(), x[1]) && same(p->acceleration(), x[2]), "K01-plane-point", what);
    VT_CHECK(p->offset() == o, "K01-plane-offset", what, ": ", p->offset(), " instead of ", o);
    count("planes_compared");
  };
  check("construction");
  int steps = r.i(0, 6);
  for(int k = 0; k < steps; ++k)
  {
    switch(r.i(0, 3))
    {
      case 0:
        n[0] = v3();
        o = r.dyadic();
        p->position(n[0], o);
        check("offset");
        break;
      case 1:
        n[0] = v3();
        x[0] = v3();
        o = -n[0].dot(x[0]);
        p->position(n[0], x[0]);
        check("point");
        break;
      case 2:
        n[1] = v3();
        x[1] = v3();
        p->velocity(n[1], x[1]);
        check("velocity");
        break;
      default:
        n[2] = v3();
        x[2] = v3();
        p->acceleration(n[2], x[2]);
        check("acceleration");
    }
  }
  // provider
  auto in = std::make_shared<Integrator>();
  in->plane = p.get();
  using O = Integrator::Output;
  if(r.b())
    p->setIntegrator(in, O::P, O::V, O::A);
  else
    p->setIntegrator(*in, O::P, O::V, O::A);
  int which = r.i(1, 7);
  auto rd = std::make_shared<Reader>(p, which);
  auto inputs = std::make_shared<graph::internal::Inputs>();
  inputs->addInput(rd, Reader::Output::Out);
  graph::CallGraph g;
  g.add(inputs);
  g.update();
  int rounds = r.i(1, 3);
  for(int k = 0; k < rounds; ++k)
  {
    for(int q = 0; q < 3; ++q)
    {
      in->n[q] = v3();
      in->x[q] = v3();
      if(which & (1 << q))
      {
        n[static_cast<size_t>(q)] = in->n[q];
        x[static_cast<size_t>(q)] = in->x[q];
        if(q == 0)
          o = -n[0].dot(x[0]);
      }
    }
    g.execute();
    check("provider");
    for(int q = 0; q < 3; ++q)
      VT_CHECK(in->calls[q] == ((which & (1 << q)) ? k + 1 : 0), "K01-plane-provider", "output ", q, " provided ", in->calls[q], " times");
    VT_CHECK(rd->calls == k + 1, "K01-plane-provider", rd->calls);
    for(size_t q = 0; q < 3; ++q)
      if(which & (1 << q))
        VT_CHECK(same(rd->n[q], n[q]) && same(rd->x[q], x[q]), "K01-plane-provider", "old values seen for ", q);
    if(which & 1)
      VT_CHECK(rd->offset == o, "K01-plane-provider", "old offset seen");
  }
  op("plane ", steps, which);
}

void caseClock(Rng & r)
{
  double dt = r.d(1e-4, 2);
  Clock c(dt);
  VT_CHECK(c.dt() == dt && c.ticks() == 0, "K01-clock", c.ticks());
  int n = r.i(0, 200);
  for(int i = 0; i < n; ++i)
  {
    c.advance();
    VT_CHECK(c.ticks() == static_cast<uint64_t>(i + 1) && c.dt() == dt, "K01-clock", c.ticks());
  }
  op("clock ", n);
  count("ticks", n);
}
#elif FOCUS == 2
void caseElements(Rng & r)
{
  std::vector<double> buf(400, 0.);
  int rows = r.i(1, 5), cols = r.i(1, 5);
  // addresses around the matrix, all in one buffer
  double * base = buf.data() + 100;
  auto check = [&](auto & M, const char * what) {
    std::set<const double *> in;
    for(Eigen::Index i = 0; i < M.rows(); ++i)
      for(Eigen::Index j = 0; j < M.cols(); ++j)
        in.insert(&M.coeffRef(i, j));
    const double * lo = in.empty() ? buf.data() : *in.begin();
    for(const double * p = lo - 5; p < (in.empty() ? lo : *in.rbegin()) + 20; ++p)
      VT_CHECK(diagnostic::isInMatrix(p, M) == (in.count(p) != 0), "K02-in-matrix", what, ": address ", p - lo, " of a ", M.rows(), "x", M.cols());
    count("addresses", static_cast<long>(in.size()) + 25);
  };
  using S = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
  int is = r.i(1, 3), os = is * rows + r.i(0, 4);
  int kind = r.i(0, 6);
  op("elements ", rows, "x", cols, " ", is, " ", os, " kind ", kind);
  switch(kind)
  {
    case 0:
    {
      Eigen::Map<MatrixXd> m(base, rows, cols);
      check(m, "map");
      break;
    }
    case 1:
    {
      Eigen::Map<MatrixXd, 0, S> m(base, rows, cols, S(os, is));
      check(m, "strided map");
      break;
    }
    case 2:
    {
      Eigen::Map<VectorXd> m(base, rows);
      check(m, "vector");
      break;
    }
    case 3:
    {
      Eigen::Map<VectorXd, 0, Eigen::InnerStride<>> m(base, rows, Eigen::InnerStride<>(is));
      check(m, "strided vector");
      break;
    }
    case 4:
    {
      Eigen::Map<MatrixXd> m(base, rows + 2, cols + 2);
      auto b = m.block(r.i(0, 2), r.i(0, 2), rows, cols);
      check(b, "block");
      break;
    }
    case 5:
    {
      Eigen::Map<MatrixXd> m(base, rows + 2, cols + 2);
      Eigen::Ref<MatrixXd> b = m.block(r.i(0, 2), r.i(0, 2), rows, cols);
      check(b, "ref");
      break;
    }
    default:
    {
      Eigen::Map<MatrixXd> m(base, rows, cols);
      auto b = m.col(r.i(0, cols - 1));
      check(b, "column");
    }
  }
  MatrixXd A = r.dmat(rows, cols);
  {
    MatrixXd B = r.dmat(rows, cols);
    int i = r.i(0, rows - 1), j = r.i(0, cols - 1);
    VT_CHECK(diagnostic::isInMatrix(A, i, j, A), "K02-in-matrix", "own element");
    VT_CHECK(!diagnostic::isInMatrix(A, i, j, B), "K02-in-matrix", "other matrix");
  }
  double lo = std::abs(r.dyadic()), hi = lo + std::abs(r.dyadic()) * (r.b(0.2) ? 0 : 0.3);
  bool any = false;
  for(int i = 0; i < rows; ++i)
    for(int j = 0; j < cols; ++j)
      any |= std::abs(A(i, j)) >= lo && std::abs(A(i, j)) <= hi;
  VT_CHECK(diagnostic::hasElemAbsInRange(A, lo, hi) == any, "K02-range", show(A), " in [", lo, ", ", hi, "]");
  count(any ? "in_range" : "out_of_range");
  nontrivial();
}
#else
void casePermission(Rng & r)
{
  using namespace tvm::utils;
  set_is_malloc_allowed(true);
  std::vector<bool> saved;
  bool now = true;
  std::function<void(int)> scope;
  int steps = r.i(3, 30);
  auto check = [&](const char * what) {
    VT_CHECK(is_malloc_allowed() == now && Eigen::internal::is_malloc_allowed() == now, "M01-permission", what, ": ", !now);
    count("permissions_compared");
  };
  auto body = [&](auto & self, int depth) -> void {
    size_t d0 = saved.size();
    for(; steps > 0; --steps)
    {
      int c = r.i(0, 5);
      if(c == 0)
      {
        now = r.b();
        bool k = set_is_malloc_allowed(now);
        VT_CHECK(k == now, "M01-permission", "returned value");
        op("set ", now);
      }
      else if(c < 3)
      {
        saved.push_back(now);
        now = r.b();
        override_is_malloc_allowed(now);
        op("override ", now);
      }
      else if(c == 3)
      {
        if(saved.size() > d0)
        {
          now = saved.back();
          saved.pop_back();
          restore_is_malloc_allowed();
          op("restore");
        }
      }
      else if(c == 4 && depth < 4)
      {
        bool before = now;
        --steps;
        op("scope {");
        bool thrown = r.b(0.3);
        now = r.b();
        try
        {
          ScopedMallocOverride s(now);
          check("scope");
          self(self, depth + 1);
          if(thrown)
            throw std::runtime_error("scope");
        }
        catch(const std::runtime_error &)
        {
        }
        now = before;
        op("}");
      }
      else if(depth > 0)
        break;
      check("step");
    }
    while(saved.size() > d0)
    {
      now = saved.back();
      saved.pop_back();
      restore_is_malloc_allowed();
      check("unwinding");
    }
  };
  try
  {
    body(body, 0);
  }
  catch(const Violation &)
  {
    set_is_malloc_allowed(true);
    throw;
  }
  set_is_malloc_allowed(true);
  nontrivial();
}
#endif
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
#if FOCUS == 1
    switch(r.i(0, 7))
    {
      case 0:
      case 1:
        caseRanges(r);
        break;
      case 2:
        caseClock(r);
        break;
      case 3:
      case 4:
      case 5:
        casePlanes(r);
        break;
      default:
        caseSpaces(r);
    }
    nontrivial();
#elif FOCUS == 2
    caseElements(r);
#else
    casePermission(r);
#endif
  });
}

// A pool of variables with independent bookkeeping of which coordinates each one covers.
#pragma once
#include "vt.h"
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/utils/memoryChecks.h>

namespace vt
{
using tvm::Space;
using tvm::VariablePtr;

/** The harness itself is allowed to allocate. */
struct AllowMalloc
{
  AllowMalloc() { tvm::utils::override_is_malloc_allowed(true); }
  ~AllowMalloc() { tvm::utils::restore_is_malloc_allowed(); }
};

/** Coordinates [t, t+n) of the order-th derivative of base. */
struct Part
{
  int base, order, t, n;
  bool operator==(const Part & o) const { return base == o.base && order == o.order && t == o.t && n == o.n; }
  bool sameVar(const Part & o) const { return base == o.base && order == o.order; }
  bool contains(const Part & o) const { return sameVar(o) && t <= o.t && o.t + o.n <= t + n; }
  bool intersects(const Part & o) const { return sameVar(o) && t < o.t + o.n && o.t < t + n; }
};
struct PV
{
  VariablePtr v;
  Part p;
  std::string str() const { return vt::str("v", p.base, "d", p.order, "[", p.t, "+", p.n, "]"); }
};

struct Pool
{
  Rng & r;
  std::vector<VariablePtr> base;
  std::vector<int> sizes;
  explicit Pool(Rng & rr, int n, int maxSize = 4) : r(rr)
  {
    for(int i = 0; i < n; ++i)
    {
      int s = r.i(1, maxSize);
      sizes.push_back(s);
      base.push_back(Space(s).createVariable(vt::str("x", i)));
      base.back()->value(r.dvec(s));
    }
    op("pool ", n);
  }
  PV whole(int i, int order = 0)
  {
    auto v = base[static_cast<size_t>(i)];
    PV p{order ? dot(v, order) : v, {i, order, 0, sizes[static_cast<size_t>(i)]}};
    return p;
  }
  PV sub(int i, int order, int t, int n)
  {
    auto v = base[static_cast<size_t>(i)];
    if(t == 0 && n == sizes[static_cast<size_t>(i)] && r.b())
      return whole(i, order);
    auto s = v->subvariable(Space(n), vt::str("x", i, "_", t, "_", n), Space(t));
    if(order)
      s = dot(s, order);
    return {s, {i, order, t, n}};
  }
  PV any(int maxOrder, double pSub)
  {
    int i = r.i(0, static_cast<int>(base.size()) - 1);
    int order = r.i(0, maxOrder);
    if(r.b(pSub))
    {
      int S = sizes[static_cast<size_t>(i)];
      int t = r.i(0, S - 1);
      return sub(i, order, t, r.i(1, S - t));
    }
    return whole(i, order);
  }
  PV subOf(const PV & p)
  {
    int t = r.i(0, p.p.n - 1);
    return sub(p.p.base, p.p.order, p.p.t + t, r.i(1, p.p.n - t));
  }
  /** New values for all variables at orders 0..maxOrder. */
  void randomize(int maxOrder)
  {
    for(auto & v : base)
      for(int o = 0; o <= maxOrder; ++o)
        (o ? dot(v, o) : v)->value(r.dvec(v->size()));
  }
};
} // namespace vt

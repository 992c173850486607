// V04 (FOCUS=4): vectors of variables against an ordered-set model.
// V05 (FOCUS=5): counted unions of (overlapping) variables, their splits, and iteration over a partition.
#include "vt.h"

#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/internal/RangeCounting.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>

#ifndef FOCUS
#  define FOCUS 4
#endif

using namespace tvm;
using namespace tvm::internal;
using Eigen::VectorXd;

namespace
{
struct Var
{
  VariablePtr p;
  int base, order, start, size;
  int tstart = 0, tsize = 0;
  std::string name() const { return vt::str("x", base, "^", order, "[", start, "+", size, "]"); }
  bool sameStore(const Var & o) const { return base == o.base && order == o.order; }
  bool eq(const Var & o) const { return sameStore(o) && start == o.start && size == o.size; }
  bool contains(const Var & o) const { return sameStore(o) && start <= o.start && o.start + o.size <= start + size; }
  bool intersects(const Var & o) const
  { return sameStore(o) && std::max(start, o.start) < std::min(start + size, o.start + o.size); }
};

struct Pool
{
  vt::Rng & r;
  std::vector<std::vector<Space>> parts; // empty: euclidean of size sizes[k]
  std::vector<Space> spaces;
  std::vector<VariablePtr> base;
  std::vector<Var> vars;

  explicit Pool(vt::Rng & rr) : r(rr) {}
  static Space prod(const std::vector<Space> & p, size_t i, size_t j) // [i,j)
  {
    Space s(0);
    for(size_t k = i; k < j; ++k)
      s = s * p[k];
    return s;
  }
  void make(int nb, int nsub)
  {
    for(int b = 0; b < nb; ++b)
    {
      std::vector<Space> ps;
      if(r.b(0.65))
      {
        int n = r.i(1, 8);
        for(int k = 0; k < n; ++k)
          ps.push_back(Space(1));
      }
      else
      {
        int n = r.i(1, 4);
        for(int k = 0; k < n; ++k)
          ps.push_back(r.b(0.3) ? Space(Space::Type::SO3) : r.b(0.3) ? Space(Space::Type::SE3) : r.b(0.3) ? Space(2, 3, 2) : Space(r.i(1, 3)));
      }
      parts.push_back(ps);
      Space s = prod(ps, 0, ps.size());
      spaces.push_back(s);
      base.push_back(s.createVariable("x" + std::to_string(b)));
      addVar(b, 0, 0, ps.size(), base.back());
    }
    for(int k = 0; k < nsub; ++k)
      fresh();
  }
  void addVar(int b, int order, size_t i, size_t j, VariablePtr p)
  {
    auto & ps = parts[static_cast<size_t>(b)];
    Space sh = prod(ps, 0, i), sp = prod(ps, i, j);
    Var v{p, b, order, order ? sh.tSize() : sh.rSize(), order ? sp.tSize() : sp.rSize()};
    vars.push_back(v);
  }
  /** A new variable object: base or sub-variable, of some derivation order (possibly equal to an existing one). */
  const Var & fresh()
  {
    int b = r.i(0, static_cast<int>(base.size()) - 1);
    auto & ps = parts[static_cast<size_t>(b)];
    int i = r.i(0, static_cast<int>(ps.size()) - 1), j = r.i(i + 1, static_cast<int>(ps.size()));
    if(r.b(0.15))
      i = 0, j = static_cast<int>(ps.size());
    int order = r.b(0.6) ? 0 : r.i(1, 2);
    VariablePtr v = base[static_cast<size_t>(b)];
    bool whole = i == 0 && j == static_cast<int>(ps.size());
    if(r.b() && order)
      v = dot(v, order), order = -order;
    if(!whole || r.b(0.3))
      v = v->subvariable(prod(ps, static_cast<size_t>(i), static_cast<size_t>(j)), "s" + std::to_string(vars.size()), prod(ps, 0, static_cast<size_t>(i)));
    if(order > 0)
      v = dot(v, order);
    order = std::abs(order);
    addVar(b, order, static_cast<size_t>(i), static_cast<size_t>(j), v);
    return vars.back();
  }
  const Var & any() { return r.pick(vars); }
};

#if FOCUS == 4
struct Vec
{
  std::unique_ptr<VariableVector> v;
  std::vector<Var> m;
};

struct World
{
  vt::Rng & r;
  Pool pool;
  std::vector<Vec> vecs;
  std::map<int, std::vector<std::string>> stampContent;

  explicit World(vt::Rng & rr) : r(rr), pool(rr) {}

  static bool mcontains(const std::vector<Var> & m, const Var & v)
  {
    for(auto & x : m)
      if(x.contains(v))
        return true;
    return false;
  }
  static bool minter(const std::vector<Var> & m, const Var & v)
  {
    for(auto & x : m)
      if(x.intersects(v))
        return true;
    return false;
  }
  /** expected: 1 added, 0 not added, -1 throws */
  static int madd(std::vector<Var> & m, const Var & v)
  {
    if(mcontains(m, v))
      return 0;
    if(minter(m, v))
      return -1;
    m.push_back(v);
    return 1;
  }

  void add(Vec & V)
  {
    Var v = r.b(0.25) ? pool.fresh() : pool.any();
    vt::op("add ", v.name());
    auto m = V.m;
    int want = madd(m, v);
    bool got = false;
    bool th = vt::throws([&] { got = V.v->add(v.p); });
    VT_CHECK(th == (want == -1), "add-throw", v.name());
    if(!th)
      VT_CHECK(got == (want == 1), "add-return", v.name());
    if(!th)
      V.m = m;
    vt::count(want == 1 ? "added" : want == 0 ? "already_there" : "refused_overlap");
  }
  void addUnique(Vec & V)
  {
    Space s(r.i(1, 4));
    int b = static_cast<int>(pool.base.size());
    auto up = s.createVariable("u" + std::to_string(b));
    Variable * raw = up.get();
    VT_CHECK(V.v->add(std::move(up)), "add-unique", "");
    VariablePtr p;
    for(const auto & x : *V.v)
      if(x.get() == raw)
        p = x;
    VT_CHECK(p != nullptr, "add-unique", "variable given by unique_ptr not found");
    pool.base.push_back(p);
    pool.spaces.push_back(s);
    pool.parts.push_back(std::vector<Space>(static_cast<size_t>(s.size()), Space(1)));
    pool.addVar(b, 0, 0, static_cast<size_t>(s.size()), p);
    V.m.push_back(pool.vars.back());
    vt::op("addUnique ", s.size());
  }
  void addMany(Vec & V)
  {
    // only sets that do not end in a refused addition
    std::vector<VariablePtr> l;
    auto m = V.m;
    int n = r.i(0, 4);
    for(int k = 0; k < n; ++k)
    {
      Var v = pool.any();
      auto m2 = m;
      if(madd(m2, v) >= 0)
      {
        m = m2;
        l.push_back(v.p);
      }
    }
    vt::op("addMany ", l.size());
    if(r.b())
      V.v->add(l);
    else
    {
      VariableVector tmp;
      bool ok = !vt::throws([&] { tmp.add(l); });
      if(ok && static_cast<size_t>(tmp.numberOfVariables()) == l.size())
        V.v->add(tmp);
      else
        V.v->add(l);
    }
    V.m = m;
  }
  void addIdx(Vec & V)
  {
    Var v = r.b(0.25) ? pool.fresh() : pool.any();
    bool containing = r.b();
    int want = -2;
    for(size_t k = 0; k < V.m.size(); ++k)
      if(V.m[k].contains(v))
        want = V.m[k].eq(v) || containing ? static_cast<int>(k) : -1;
    bool wantThrow = want == -2 && minter(V.m, v);
    if(want == -2)
      want = static_cast<int>(V.m.size());
    int got = -5;
    vt::op("addAndGetIndex ", v.name(), " ", containing);
    bool th = vt::throws([&] { got = containing ? V.v->addAndGetIndex(v.p, true) : V.v->addAndGetIndex(v.p); });
    VT_CHECK(th == wantThrow, "addidx-throw", v.name());
    if(!th)
    {
      VT_CHECK(got == want, "addidx", v.name(), " got ", got, " expected ", want);
      madd(V.m, v);
    }
  }
  void remove(Vec & V)
  {
    if(!V.m.empty() && r.b(0.7))
    {
      int i = r.i(0, static_cast<int>(V.m.size()) - 1);
      if(r.b())
      {
        vt::op("remove# ", i);
        V.v->remove(i);
      }
      else
      {
        // by an equal variable, possibly another object
        Var x = V.m[static_cast<size_t>(i)];
        for(auto & o : pool.vars)
          if(o.eq(x) && r.b())
            x = o;
        vt::op("remove ", x.name());
        VT_CHECK(V.v->remove(*x.p), "remove-return", "");
      }
      V.m.erase(V.m.begin() + i);
      vt::count("removed");
    }
    else
    {
      Var v = pool.any();
      bool there = false;
      size_t k = 0;
      for(; k < V.m.size(); ++k)
        if(V.m[k].eq(v))
        {
          there = true;
          break;
        }
      vt::op("remove? ", v.name());
      VT_CHECK(V.v->remove(*v.p) == there, "remove-return", v.name());
      if(there)
        V.m.erase(V.m.begin() + static_cast<long>(k));
      int n = static_cast<int>(V.m.size());
      VT_CHECK(vt::throws([&] { V.v->remove(n); }), "remove-oob", "");
      VT_CHECK(vt::throws([&] { V.v->remove(-1); }), "remove-oob", "");
    }
  }
  void copyOps()
  {
    int i = r.i(0, static_cast<int>(vecs.size()) - 1), j = r.i(0, static_cast<int>(vecs.size()) - 1);
    auto & A = vecs[static_cast<size_t>(i)];
    auto & B = vecs[static_cast<size_t>(j)];
    switch(r.i(0, 6))
    {
      case 0:
        vt::op("copy ", i);
        if(vecs.size() < 5)
        {
          Vec n;
          n.v = std::make_unique<VariableVector>(*A.v);
          n.m = A.m;
          vecs.push_back(std::move(n));
        }
        break;
      case 1:
        vt::op("assign ", i, "=", j);
        *A.v = *B.v;
        if(i != j)
          A.m = B.m;
        vt::count(i == j ? "self_assign" : "assign");
        break;
      case 2:
        if(i != j)
        {
          vt::op("move-assign ", i, "=", j);
          *A.v = std::move(*B.v);
          A.m = B.m;
          reuse(B);
          vt::count("move_assign");
        }
        break;
      case 3:
      {
        vt::op("move-construct ", i);
        auto nv = std::make_unique<VariableVector>(std::move(*A.v));
        if(vecs.size() < 5 && r.b())
        {
          Vec n;
          n.v = std::move(nv);
          n.m = A.m;
          reuse(A);
          vecs.push_back(std::move(n));
        }
        else
          A.v = std::move(nv);
        vt::count("move_construct");
        break;
      }
      case 4:
        if(i != j)
        {
          vt::op("swap ", i, " ", j);
          std::swap(*A.v, *B.v);
          std::swap(A.m, B.m);
        }
        break;
      case 5:
        if(vecs.size() > 1)
        {
          vt::op("destroy ", i);
          vecs.erase(vecs.begin() + i);
        }
        break;
      default:
        vt::op("clear ", i);
        A.v->clear();
        A.m.clear();
    }
  }
  /** A moved-from vector can be given a new content. */
  void reuse(Vec & V)
  {
    V.m.clear();
    if(r.b())
      V.v->clear();
    else
    {
      VariableVector e;
      auto & o = r.pick(vecs);
      if(&o != &V)
      {
        *V.v = *o.v;
        V.m = o.m;
      }
      else
        *V.v = e;
    }
    vt::count("moved_from_reused");
  }
  void values(Vec & V)
  {
    int n = V.v->totalSize();
    if(r.b(0.8))
    {
      VectorXd x = r.vec(n, -5, 5);
      vt::op("set");
      V.v->set(x);
      VT_CHECK(vt::same(V.v->value(), x), "set-value", vt::show(V.v->value()), " vs ", vt::show(x));
      int p = 0;
      for(auto & v : V.m)
      {
        VT_CHECK(vt::same(v.p->value(), x.segment(p, v.size)), "set-value", v.name());
        p += v.size;
      }
    }
    else
    {
      vt::op("setZero");
      V.v->setZero();
      VT_CHECK(V.v->value().isZero(0), "set-zero", "");
    }
    vt::count("value_writes");
  }

  void check(Vec & V)
  {
    auto & v = *V.v;
    VT_CHECK(v.numberOfVariables() == static_cast<int>(V.m.size()), "size", v.numberOfVariables(), " vs ", V.m.size());
    VT_CHECK(v.variables().size() == V.m.size(), "size", "");
    int tot = 0;
    std::vector<int> st;
    std::vector<VectorXd> val;
    auto it = v.begin();
    for(size_t k = 0; k < V.m.size(); ++k, ++it)
    {
      VT_CHECK(v[static_cast<int>(k)].get() == V.m[k].p.get(), "order", "element ", k, " is not ", V.m[k].name());
      VT_CHECK(it->get() == V.m[k].p.get(), "order", "iterator");
      VT_CHECK(v.variables()[k].get() == V.m[k].p.get(), "order", "variables()");
      st.push_back(tot);
      tot += V.m[k].size;
    }
    VT_CHECK(it == v.end(), "order", "end");
    VT_CHECK(v.totalSize() == tot, "total-size", v.totalSize(), " vs ", tot);
    VectorXd x = v.value();
    VT_CHECK(x.size() == tot, "value", "size");
    for(size_t k = 0; k < V.m.size(); ++k)
      VT_CHECK(vt::same(x.segment(st[k], V.m[k].size), V.m[k].p->value()), "value", V.m[k].name());
    // queries on some variables
    for(int q = 0; q < 8; ++q)
    {
      Var o = pool.any();
      VT_CHECK(v.contains(*o.p) == mcontains(V.m, o), "contains", o.name());
      VT_CHECK(v.intersects(*o.p) == minter(V.m, o), "intersects", o.name());
      int idx = -1, start = -1;
      for(size_t k = 0; k < V.m.size(); ++k)
      {
        if(V.m[k].eq(o))
          idx = static_cast<int>(k);
        if(V.m[k].contains(o))
          start = st[k] + o.start - V.m[k].start;
      }
      VT_CHECK(v.indexOf(*o.p) == idx, "indexOf", o.name(), " got ", v.indexOf(*o.p), " expected ", idx);
      Range g(0, 0);
      bool th = vt::throws([&] { g = r.b() ? o.p->getMappingIn(v) : v.getMappingOf(*o.p); });
      VT_CHECK(th == (start < 0), "mapping-throw", o.name());
      if(!th)
        VT_CHECK(g.start == start && g.dim == o.size, "mapping", o.name(), " got ", g.start, "+", g.dim, " expected ", start);
      vt::count("mapping_queries");
    }
    if(r.b(0.1))
    {
      int n = r.i(1, 2);
      bool dup = false; // equal derivatives of distinct entries do not exist: entries are disjoint
      auto d = dot(v, n);
      VT_CHECK(d.numberOfVariables() == v.numberOfVariables() || dup, "dot", "");
      for(size_t k = 0; k < V.m.size(); ++k)
        VT_CHECK(d[static_cast<int>(k)].get() == dot(V.m[k].p, n).get(), "dot", V.m[k].name());
    }
  }
};

void oneCase(vt::Rng & r)
{
  World w(r);
  w.pool.make(r.i(1, 4), r.i(2, 14));
  int nv = r.i(1, 3);
  for(int k = 0; k < nv; ++k)
  {
    Vec v;
    v.v = std::make_unique<VariableVector>();
    w.vecs.push_back(std::move(v));
  }
  int steps = r.i(8, 40);
  size_t most = 0;
  for(int s = 0; s < steps; ++s)
  {
    auto & V = w.vecs[static_cast<size_t>(r.i(0, static_cast<int>(w.vecs.size()) - 1))];
    int k = r.i(0, 99);
    if(k < 40)
      w.add(V);
    else if(k < 44)
      w.addUnique(V);
    else if(k < 50)
      w.addMany(V);
    else if(k < 60)
      w.addIdx(V);
    else if(k < 75)
      w.remove(V);
    else if(k < 85)
      w.copyOps();
    else
      w.values(V);
    for(auto & x : w.vecs)
    {
      w.check(x);
      most = std::max(most, x.m.size());
    }
  }
  // variadic construction
  {
    auto a = Space(2).createVariable("a");
    VariablePtr b = Space(3).createVariable("b");
    VariableVector c(b, std::move(a), std::vector<VariablePtr>{b});
    VT_CHECK(c.numberOfVariables() == 2 && c.totalSize() == 5 && c[0] == b, "variadic", "");
    VariableVector d(c, b);
    VT_CHECK(d.numberOfVariables() == 2 && d[0] == c[0] && d[1] == c[1], "variadic", "");
  }
  if(most >= 2)
    vt::nontrivial();
}
#else
// -------------------------------------------------------------------------------------------------- V05
using Ranges = std::vector<Range>;
std::string show(const Ranges & r)
{
  std::string s;
  for(auto & x : r)
    s += vt::str("[", x.start, ",", x.start + x.dim, ") ");
  return s;
}
Ranges runs(const std::vector<int> & cnt)
{
  Ranges o;
  for(int i = 0; i < static_cast<int>(cnt.size()); ++i)
  {
    if(cnt[static_cast<size_t>(i)] <= 0)
      continue;
    if(!o.empty() && o.back().start + o.back().dim == i)
      ++o.back().dim;
    else
      o.emplace_back(i, 1);
  }
  return o;
}
bool equal(const Ranges & a, const Ranges & b)
{
  if(a.size() != b.size())
    return false;
  for(size_t i = 0; i < a.size(); ++i)
    if(a[i].start != b[i].start || a[i].dim != b[i].dim)
      return false;
  return true;
}
/** Oracle for the pieces of a split on [0,n). */
void checkPieces(const Ranges & got, const std::vector<int> & cnt, const std::vector<std::pair<int, int>> & present,
                 const std::set<int> & everEnd, bool addOnly, const char * tag)
{
  std::string T(tag);
  std::vector<int> cover(cnt.size(), 0);
  int last = -1;
  std::set<int> bounds;
  for(auto & g : got)
  {
    VT_CHECK(g.dim > 0, T + "-empty-piece", show(got));
    VT_CHECK(g.start >= last, T + "-order", show(got));
    last = g.start + g.dim;
    bounds.insert(g.start);
    bounds.insert(last);
    VT_CHECK(g.start >= 0 && last <= static_cast<int>(cnt.size()), T + "-range", show(got));
    for(int i = g.start; i < last; ++i)
    {
      ++cover[static_cast<size_t>(i)];
      VT_CHECK(cnt[static_cast<size_t>(i)] == cnt[static_cast<size_t>(g.start)], T + "-uneven-piece", show(got), " at ", i);
    }
  }
  for(size_t i = 0; i < cnt.size(); ++i)
    VT_CHECK(cover[i] == (cnt[i] > 0 ? 1 : 0), T + "-cover", "coordinate ", i, " count ", cnt[i], " covered ", cover[i], " by ", show(got));
  for(auto & p : present)
    VT_CHECK(bounds.count(p.first) && bounds.count(p.first + p.second), T + "-union",
             "[", p.first, ",", p.first + p.second, ") is not a union of pieces ", show(got));
  for(int b : bounds)
    VT_CHECK(everEnd.count(b), T + "-arbitrary-cut", b, " in ", show(got));
  if(addOnly)
  {
    std::set<int> e;
    for(auto & p : present)
    {
      e.insert(p.first);
      e.insert(p.first + p.second);
    }
    VT_CHECK(e == bounds, T + "-boundaries", show(got));
  }
}

void rangeCase(vt::Rng & r)
{
  RangeCounting rc;
  int n = r.i(1, 24);
  std::vector<int> cnt(static_cast<size_t>(n), 0);
  std::vector<std::pair<int, int>> present;
  std::set<int> ends;
  bool addOnly = true, matched = true;
  int steps = r.i(3, 40);
  double pRem = r.d(0, 0.6);
  for(int s = 0; s < steps; ++s)
  {
    auto before = runs(cnt);
    bool change = false;
    if(r.b(pRem))
    {
      addOnly = false;
      int i, l;
      if(!present.empty() && r.b(0.85))
      {
        size_t k = static_cast<size_t>(r.i(0, static_cast<int>(present.size()) - 1));
        i = present[k].first;
        l = present[k].second;
        if(r.b(0.1) && l > 1)
        {
          int d = r.i(0, l - 1);
          l = r.i(1, l - d);
          i += d;
        }
      }
      else
      {
        i = r.i(0, n - 1);
        l = r.i(0, n - i);
      }
      bool ok = true;
      for(int k = i; k < i + l; ++k)
        ok = ok && cnt[static_cast<size_t>(k)] > 0;
      vt::op("rem ", i, "+", l);
      bool th = vt::throws([&] { change = rc.remove(Range(i, l)); });
      VT_CHECK(th == !ok, "remove-absent", "removing [", i, ",", i + l, ") threw ", th);
      if(th)
      {
        vt::count("refused_removals");
        change = false;
      }
      else
      {
        auto it = std::find(present.begin(), present.end(), std::make_pair(i, l));
        if(it != present.end())
          present.erase(it);
        else if(l > 0)
          matched = false;
        if(l)
        {
          ends.insert(i);
          ends.insert(i + l);
        }
        for(int k = i; k < i + l; ++k)
          --cnt[static_cast<size_t>(k)];
        vt::count("removals");
      }
    }
    else
    {
      int i = r.i(0, n - 1), l = r.i(r.b(0.05) ? 0 : 1, n - i);
      if(r.b(0.4))
        l = std::min(l, r.i(1, 3));
      vt::op("add ", i, "+", l);
      change = rc.add(Range(i, l));
      if(l)
      {
        present.push_back({i, l});
        ends.insert(i);
        ends.insert(i + l);
      }
      for(int k = i; k < i + l; ++k)
        ++cnt[static_cast<size_t>(k)];
      vt::count("additions");
    }
    auto after = runs(cnt);
    VT_CHECK(change == !equal(before, after), "change-flag", "returned ", change, " from ", show(before), " to ", show(after));
    VT_CHECK(rc.empty() == after.empty(), "empty", "");
    VT_CHECK(rc.maxCount() == (cnt.empty() ? 0 : *std::max_element(cnt.begin(), cnt.end())), "max-count", rc.maxCount());
    for(int q = r.i(0, 2); q > 0; --q)
    {
      if(r.b())
        VT_CHECK(equal(rc.ranges(false), after), "union", "got ", show(rc.ranges(false)), " expected ", show(after));
      else
        checkPieces(rc.ranges(true), cnt, matched ? present : std::vector<std::pair<int, int>>{}, ends, addOnly, "split");
      vt::count("range_queries");
    }
  }
  if(steps > 5)
    vt::nontrivial();
}

struct Counted
{
  int base, order;
  int n;
  std::vector<int> cnt;
  std::vector<std::pair<int, int>> present;
  std::set<int> ends;
  bool addOnly = true, matched = true;
  VariablePtr super;
};

void vectorCase(vt::Rng & r)
{
  Pool pool(r);
  pool.make(r.i(1, 3), r.i(3, 12));
  bool split = r.b();
  VariableCountingVector vc(split);
  VT_CHECK(vc.split() == split, "split-flag", "");
  std::map<std::pair<int, int>, Counted> m;
  auto get = [&](const Var & v) -> Counted & {
    auto & c = m[{v.base, v.order}];
    if(c.cnt.empty())
    {
      c.base = v.base;
      c.order = v.order;
      c.super = v.p->superVariable();
      c.n = c.super->size();
      c.cnt.assign(static_cast<size_t>(c.n), 0);
    }
    return c;
  };
  auto check = [&]() {
    const VariableVector & res = vc.variables();
    std::map<std::pair<int, int>, Ranges> got;
    for(const auto & v : res)
    {
      bool found = false;
      for(auto & p : m)
        if(*p.second.super == *v->superVariable())
        {
          auto g = v->subvariableRange();
          got[p.first].push_back(g);
          found = true;
          if(g.dim == p.second.n)
            VT_CHECK(*v == *p.second.super, "whole", "");
        }
      VT_CHECK(found, "alien", "a variable never added is in the result");
    }
    for(auto & p : m)
    {
      auto & c = p.second;
      if(split)
        checkPieces(got[p.first], c.cnt, c.matched ? c.present : std::vector<std::pair<int, int>>{}, c.ends, c.addOnly, "vsplit");
      else
        VT_CHECK(equal(got[p.first], runs(c.cnt)), "vunion", "got ", show(got[p.first]), " expected ", show(runs(c.cnt)));
    }
    if(!split)
    {
      auto s = vc.simple();
      VT_CHECK(static_cast<int>(s.size()) == res.numberOfVariables(), "simple-size", "");
      // exact for additions only: simple <=> the part comes from a single addition that changed something
    }
    bool disjoint = true;
    for(auto & p : m)
      for(int k : p.second.cnt)
        disjoint = disjoint && k <= 1;
    VT_CHECK(vc.isDisjointUnion() == disjoint, "disjoint", "");
    vt::count("vector_queries");
  };
  int steps = r.i(4, 30);
  double pRem = r.d(0, 0.5);
  for(int s = 0; s < steps; ++s)
  {
    if(r.b(pRem))
    {
      // mostly remove something present
      std::vector<std::pair<Var, int>> cand;
      for(auto & v : pool.vars)
      {
        auto it = m.find({v.base, v.order});
        if(it == m.end())
          continue;
        for(auto & p : it->second.present)
          if(p.first == v.start && p.second == v.size)
          {
            cand.push_back({v, 1});
            break;
          }
      }
      Var v = !cand.empty() && r.b(0.85) ? r.pick(cand).first : pool.any();
      bool ok = m.count({v.base, v.order}) > 0;
      if(ok)
        for(int k = v.start; k < v.start + v.size; ++k)
          ok = ok && get(v).cnt[static_cast<size_t>(k)] > 0;
      vt::op("vrem ", v.name());
      bool change = false;
      auto before = ok ? runs(get(v).cnt) : Ranges{};
      bool th = vt::throws([&] { change = vc.remove(*v.p); });
      VT_CHECK(th == !ok, "vremove-absent", v.name(), " threw ", th);
      if(ok)
      {
        auto & c = get(v);
        c.addOnly = false;
        auto it = std::find(c.present.begin(), c.present.end(), std::make_pair(v.start, v.size));
        if(it != c.present.end())
          c.present.erase(it);
        else
          c.matched = false;
        c.ends.insert(v.start);
        c.ends.insert(v.start + v.size);
        for(int k = v.start; k < v.start + v.size; ++k)
          --c.cnt[static_cast<size_t>(k)];
        if(!split)
          VT_CHECK(change == !equal(before, runs(c.cnt)), "vchange-flag", v.name());
        vt::count("vector_removals");
      }
    }
    else
    {
      Var v = r.b(0.2) ? pool.fresh() : pool.any();
      auto & c = get(v);
      auto before = runs(c.cnt);
      vt::op("vadd ", v.name());
      bool change = vc.add(v.p);
      c.present.push_back({v.start, v.size});
      c.ends.insert(v.start);
      c.ends.insert(v.start + v.size);
      for(int k = v.start; k < v.start + v.size; ++k)
        ++c.cnt[static_cast<size_t>(k)];
      if(!split)
        VT_CHECK(change == !equal(before, runs(c.cnt)), "vchange-flag", v.name());
      vt::count("vector_additions");
    }
    if(r.b(0.1))
    {
      // several variables together
      VariableVector vv;
      std::vector<Var> list;
      for(int k = r.i(1, 3); k > 0; --k)
      {
        Var v = pool.any();
        bool apart = true;
        for(auto & o : list)
          apart = apart && (o.base != v.base || o.order != v.order || o.start + o.size <= v.start || v.start + v.size <= o.start);
        if(!apart)
          continue;
        vv.add(v.p);
        list.push_back(v);
      }
      auto all = [&](bool plus) {
        vt::op(plus ? "vaddall " : "vremall ", list.size());
        plus ? vc.add(vv) : vc.remove(vv);
        for(auto & v : list)
        {
          auto & c = get(v);
          c.addOnly = c.addOnly && plus;
          if(plus)
            c.present.push_back({v.start, v.size});
          else
            c.present.erase(std::find(c.present.begin(), c.present.end(), std::make_pair(v.start, v.size)));
          c.ends.insert(v.start);
          c.ends.insert(v.start + v.size);
          for(int k = v.start; k < v.start + v.size; ++k)
            c.cnt[static_cast<size_t>(k)] += plus ? 1 : -1;
        }
        check();
      };
      all(true);
      if(r.b(0.7))
        all(false);
      vt::count("vector_groups");
    }
    if(r.b(0.5))
      check();
    if(r.b(0.02))
    {
      vt::op("clear");
      vc.clear();
      m.clear();
    }
  }
  check();
  if(!split)
  {
    VectorXd x = r.vec(vc.variables().totalSize());
    vc.set(x);
    VT_CHECK(vt::same(vc.variables().value(), x), "vset", "");
  }
  else
  {
    // iterating a collection over the partition yields, in order, the pieces of each of its elements
    std::vector<VariablePtr> coll;
    std::vector<Var> cm;
    for(auto & v : pool.vars)
    {
      auto it = m.find({v.base, v.order});
      if(it == m.end() || !it->second.matched)
        continue;
      if(std::find(it->second.present.begin(), it->second.present.end(), std::make_pair(v.start, v.size)) != it->second.present.end()
         && r.b(0.7))
      {
        coll.push_back(v.p);
        cm.push_back(v);
      }
    }
    if(!coll.empty())
    {
      std::vector<size_t> perm;
      for(size_t k = 0; k < coll.size(); ++k)
        perm.push_back(k);
      r.shuffle(perm);
      std::vector<VariablePtr> c2;
      std::vector<Var> m2;
      for(auto k : perm)
      {
        c2.push_back(coll[k]);
        m2.push_back(cm[k]);
      }
      size_t e = 0;
      int off = 0;
      long pieces = 0;
      for(const auto & v : VariableVectorPartition(c2, vc))
      {
        VT_CHECK(e < m2.size(), "partition-extra", "");
        auto g = v->subvariableRange();
        VT_CHECK(*v->superVariable() == *m2[e].p->superVariable(), "partition-order", "");
        VT_CHECK(g.start == m2[e].start + off, "partition-order", "got ", g.start, " expected ", m2[e].start + off);
        off += g.dim;
        VT_CHECK(off <= m2[e].size, "partition-straddle", "");
        if(off == m2[e].size)
        {
          off = 0;
          ++e;
        }
        ++pieces;
      }
      VT_CHECK(e == m2.size() && off == 0, "partition-incomplete", "");
      vt::count("partition_pieces", pieces);
    }
  }
  vt::nontrivial();
}

void oneCase(vt::Rng & r)
{
  if(r.b(0.4))
    rangeCase(r);
  else
    vectorCase(r);
}
#endif
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, oneCase); }

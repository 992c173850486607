// V01 / V02 / V03: reference model of variables, derivatives and sub-variables.
//   -DFOCUS=1 derivation chains, 2 sub-variables as live windows, 3 lifetimes
#include "vt.h"

#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace tvm;
using Eigen::VectorXd;

namespace
{
struct Base
{
  std::vector<Space> parts; // components of the space, in order
  Space space{0};
  std::string name;
  std::vector<VectorXd> val; // expected value for each existing order
  std::weak_ptr<Variable> alive;
};
struct Chain // a base variable, or one created sub-variable, with all its derivatives
{
  int base;
  bool sub;
  Space space{0}, shift{0};
  std::map<int, const Variable *> obj; // order -> object first seen
  std::map<int, int> ids;
};
struct Handle
{
  VariablePtr p;
  int chain;
  int order;
};

struct World
{
  vt::Rng & r;
  std::vector<Base> bases;
  std::vector<Chain> chains;
  std::vector<Handle> hs;
  int named = 0;

  explicit World(vt::Rng & rr) : r(rr) {}

  static Space prod(const std::vector<Space> & p)
  {
    Space s = p[0];
    for(size_t i = 1; i < p.size(); ++i)
      s = s * p[i];
    return s;
  }
  int start(const Handle & h) const
  {
    auto & c = chains[static_cast<size_t>(h.chain)];
    return h.order == 0 ? c.shift.rSize() : c.shift.tSize();
  }
  int size(const Handle & h) const
  {
    auto & c = chains[static_cast<size_t>(h.chain)];
    return h.order == 0 ? c.space.rSize() : c.space.tSize();
  }
  Base & base(const Handle & h) { return bases[static_cast<size_t>(chains[static_cast<size_t>(h.chain)].base)]; }

  Space randomPart()
  {
    switch(r.i(0, 6))
    {
      case 0:
        return Space(Space::Type::SO3);
      case 1:
        return Space(Space::Type::SE3);
      case 2:
        return Space(2, 3, 3);
      case 3:
        return Space(1, 2);
      case 4:
        return Space(2, 2, 4);
      default:
        return Space(r.i(1, 4));
    }
  }

  void newBase()
  {
    Base b;
    if(r.b(0.5))
      b.parts = {Space(r.i(1, 8))};
    else
    {
      int n = r.i(1, 4);
      for(int i = 0; i < n; ++i)
        b.parts.push_back(randomPart());
    }
    b.space = prod(b.parts);
    b.name = "v" + std::to_string(named++);
    VariablePtr p = b.space.createVariable(b.name);
    vt::op("new ", b.name, b.space.sizeAsString());
    VT_CHECK(p->value().isZero(0), "initial-value", "a new variable is not zero: ", vt::show(p->value()));
    b.val.push_back(VectorXd::Zero(b.space.rSize()));
    b.alive = p;
    bases.push_back(b);
    Chain c;
    c.base = static_cast<int>(bases.size()) - 1;
    c.sub = false;
    c.space = b.space;
    c.shift = Space(0);
    chains.push_back(c);
    add(p, static_cast<int>(chains.size()) - 1, 0);
    VT_CHECK(p->name() == b.name, "name", p->name());
  }

  void add(VariablePtr p, int chain, int order)
  {
    VT_CHECK(p != nullptr, "null-handle", "");
    auto & c = chains[static_cast<size_t>(chain)];
    auto it = c.obj.find(order);
    if(it == c.obj.end())
    {
      c.obj[order] = p.get();
      c.ids[order] = p->id();
    }
    else
    {
      VT_CHECK(it->second == p.get(), "chain-identity", "order ", order, " of the same variable is two different objects");
      VT_CHECK(c.ids[order] == p->id(), "chain-identity", "id changed");
    }
    hs.push_back({p, chain, order});
  }

  void ensureOrders(Base & b, int order)
  {
    while(static_cast<int>(b.val.size()) <= order)
      b.val.push_back(VectorXd::Zero(b.space.tSize()));
  }

  bool chainAlive(int c) const
  {
    for(auto & h : hs)
      if(h.chain == c)
        return true;
    return false;
  }

  void derive()
  {
    Handle h = r.pick(hs);
    int n = r.i(1, 3);
    if(h.order + n > 5)
      return;
    vt::op("dot ", hname(h), " n=", n);
    VariablePtr d = r.b() ? dot(h.p, n) : [&]() {
      VariablePtr q = h.p;
      for(int i = 0; i < n; ++i)
        q = dot(q);
      return q;
    }();
    ensureOrders(base(h), h.order + n);
    vt::count("derivations");
    add(d, h.chain, h.order + n);
    auto d2 = dot(h.p, n);
    VT_CHECK(d2.get() == d.get(), "dot-unique", "deriving twice gives two objects");
  }

  void toPrimitive()
  {
    Handle h = r.pick(hs);
    if(h.order == 0)
    {
      VT_CHECK(vt::throws([&] { (void)h.p->primitive(); }), "primitive-of-base", "primitive() of a base primitive did not throw");
      auto b = h.p->basePrimitive();
      add(b, h.chain, 0);
      return;
    }
    vt::op("primitive ", hname(h));
    vt::count("primitives");
    add(h.p->primitive(), h.chain, h.order - 1);
    add(h.p->basePrimitive(), h.chain, 0);
    if(h.order >= 2)
      add(h.p->primitive<2>(), h.chain, h.order - 2);
    else
      VT_CHECK(vt::throws([&] { (void)h.p->primitive<2>(); }), "primitive-too-deep", "");
    if(h.order >= 3)
      add(h.p->primitive<3>(), h.chain, h.order - 3);
  }

  std::string hname(const Handle & h) const
  {
    auto & c = chains[static_cast<size_t>(h.chain)];
    return vt::str("c", h.chain, (c.sub ? "s" : ""), "^", h.order, "[", start(h), "+", size(h), "]");
  }

  void sub()
  {
    Handle h = r.pick(hs);
    auto c = chains[static_cast<size_t>(h.chain)];
    auto & b = bases[static_cast<size_t>(c.base)];
    Space sp{0}, sh{0};
    if(c.space.isEuclidean())
    {
      int n = c.space.size();
      int s = r.i(0, n - 1);
      int l = r.i(1, n - s);
      sp = Space(l);
      sh = Space(s);
    }
    else
    {
      // find the components of this chain
      int pos = 0;
      size_t k = 0;
      while(k < b.parts.size() && pos < c.shift.rSize())
        pos += b.parts[k++].rSize();
      if(pos != c.shift.rSize())
        return;
      size_t e = k;
      int len = 0;
      while(e < b.parts.size() && len < c.space.rSize())
        len += b.parts[e++].rSize();
      if(len != c.space.rSize())
        return;
      int i0 = r.i(static_cast<int>(k), static_cast<int>(e) - 1);
      int i1 = r.i(i0, static_cast<int>(e) - 1);
      std::vector<Space> run(b.parts.begin() + i0, b.parts.begin() + i1 + 1);
      sp = prod(run);
      for(int i = static_cast<int>(k); i < i0; ++i)
        sh = sh * b.parts[static_cast<size_t>(i)];
    }
    vt::op("sub ", hname(h), " ", sp.sizeAsString(), " shift ", sh.sizeAsString());
    vt::count("subvariables");
    VariablePtr p;
    bool autoName = r.b();
    std::string nm = "w" + std::to_string(named++);
    p = autoName ? h.p->subvariable(sp, sh) : h.p->subvariable(sp, nm, sh);
    Chain n;
    n.base = c.base;
    n.sub = true;
    n.space = sp;
    n.shift = c.shift * sh;
    chains.push_back(n);
    int ci = static_cast<int>(chains.size()) - 1;
    add(p, ci, h.order);
    Handle nh = hs.back();
    if(!autoName)
    {
      if(h.order == 0)
        VT_CHECK(p->name() == nm, "sub-name", p->name());
      else
        VT_CHECK(p->name().find(nm) != std::string::npos, "sub-name", p->name());
    }
    else
    {
      std::string want = vt::str("[", start(nh), ":", start(nh) + size(nh) - 1, "]");
      auto & nme = p->name();
      VT_CHECK(nme.size() >= want.size() && nme.compare(nme.size() - want.size(), want.size(), want) == 0, "sub-autoname",
               "got ", nme, " expected suffix ", want);
      VT_CHECK(nme.find(b.name) != std::string::npos, "sub-autoname", "got ", nme, " for ", b.name);
    }
    // out of the variable: refused
    if(r.b(0.3))
    {
      Space over(c.space.size() + 1, c.space.rSize() + 1, c.space.tSize() + 1);
      VT_CHECK(vt::throws([&] { (void)h.p->subvariable(over, "bad"); }), "sub-out-of-range", "too large sub-variable accepted");
      if(c.space.isEuclidean())
        VT_CHECK(vt::throws([&] { (void)h.p->subvariable(Space(1), "bad", Space(c.space.size())); }), "sub-out-of-range",
                 "sub-variable after the end accepted");
    }
  }

  void write()
  {
    Handle h = r.pick(hs);
    auto & b = base(h);
    auto seg = b.val[static_cast<size_t>(h.order)].segment(start(h), size(h));
    int n = size(h);
    vt::count("writes");
    switch(r.i(0, 6))
    {
      case 0:
      {
        VectorXd v = r.vec(n, -9, 9);
        vt::op("set ", hname(h));
        h.p->set(v);
        seg = v;
        break;
      }
      case 1:
      {
        int i = r.i(0, n - 1);
        double d = r.d(-9, 9);
        vt::op("set1 ", hname(h), " ", i);
        h.p->set(i, d);
        seg[i] = d;
        break;
      }
      case 2:
      {
        int i = r.i(0, n - 1), l = r.i(0, n - i);
        VectorXd v = r.vec(l, -9, 9);
        vt::op("setseg ", hname(h), " ", i, " ", l);
        h.p->set(i, l, v);
        seg.segment(i, l) = v;
        break;
      }
      case 3:
      {
        vt::op("setZero ", hname(h));
        h.p->setZero();
        seg.setZero();
        break;
      }
      case 4:
      {
        VectorXd v = r.vec(n, -9, 9);
        vt::op("<< ", hname(h));
        h.p << v;
        seg = v;
        break;
      }
      case 5: // refused writes leave the value untouched
      {
        vt::op("badset ", hname(h));
        VT_CHECK(vt::throws([&] { h.p->set(VectorXd::Ones(n + 1)); }), "bad-set", "larger vector accepted");
        VT_CHECK(vt::throws([&] { h.p->set(VectorXd::Ones(n - 1)); }), "bad-set", "smaller vector accepted");
        VT_CHECK(vt::throws([&] { h.p->set(n, 1.); }), "bad-set", "index past the end accepted");
        VT_CHECK(vt::throws([&] { h.p->set(-1, 1.); }), "bad-set", "negative index accepted");
        VT_CHECK(vt::throws([&] { h.p->set(1, n, VectorXd::Ones(n)); }), "bad-set", "segment past the end accepted");
        VT_CHECK(vt::throws([&] { h.p->set(-1, n, VectorXd::Ones(n)); }), "bad-set", "negative segment start accepted");
        VT_CHECK(vt::throws([&] { h.p->set(0, n, VectorXd::Ones(n + 1)); }), "bad-set", "segment/vector size mismatch accepted");
        break;
      }
      default:
      {
        double d = r.d(-9, 9);
        if(n == 1)
        {
          h.p << d;
          seg[0] = d;
        }
        break;
      }
    }
  }

  void dup()
  {
    Handle h = r.pick(hs);
    auto c = chains[static_cast<size_t>(h.chain)];
    if(bases.size() > 6)
      return;
    vt::op("dup ", hname(h));
    vt::count("duplicates");
    bool nm = r.b();
    auto bname = h.p->basePrimitive()->name();
    auto p = nm ? h.p->duplicate("dup") : h.p->duplicate();
    VT_CHECK(p->basePrimitive()->name() == (nm ? std::string("dup") : bname + "'"), "dup-name", p->basePrimitive()->name());
    Base nb;
    nb.parts = {c.space};
    nb.space = c.space;
    nb.name = p->basePrimitive()->name();
    nb.val.push_back(VectorXd::Zero(c.space.rSize()));
    bases.push_back(nb);
    Chain n;
    n.base = static_cast<int>(bases.size()) - 1;
    n.sub = false;
    n.space = c.space;
    chains.push_back(n);
    auto & b = bases.back();
    ensureOrders(b, h.order);
    b.val[static_cast<size_t>(h.order)] = base(h).val[static_cast<size_t>(h.order)].segment(start(h), size(h));
    b.alive = p->basePrimitive();
    add(p, static_cast<int>(chains.size()) - 1, h.order);
  }

  void super()
  {
    Handle h = r.pick(hs);
    auto s = h.p->superVariable();
    vt::op("super ", hname(h));
    int ci = -1;
    for(size_t k = 0; k < chains.size(); ++k)
      if(!chains[k].sub && chains[k].base == chains[static_cast<size_t>(h.chain)].base)
        ci = static_cast<int>(k);
    add(s, ci, h.order);
    VT_CHECK(!s->isSubvariable(), "super", "the super-variable is itself a sub-variable");
  }

  void drop()
  {
    if(hs.size() < 2)
      return;
    int i = r.i(0, static_cast<int>(hs.size()) - 1);
    auto h = hs[static_cast<size_t>(i)];
    vt::op("drop ", hname(h));
    vt::count("drops");
    hs.erase(hs.begin() + i);
    int ch = h.chain;
    h.p.reset();
    if(!chainAlive(ch) && chains[static_cast<size_t>(ch)].sub)
    {
      // the sub-variable object may legitimately be destroyed now
      chains[static_cast<size_t>(ch)].obj.clear();
      chains[static_cast<size_t>(ch)].ids.clear();
    }
    checkDead();
  }
  bool baseAlive(int b) const
  {
    for(auto & h : hs)
      if(chains[static_cast<size_t>(h.chain)].base == b)
        return true;
    return false;
  }
  void checkDead()
  {
    for(size_t k = 0; k < bases.size(); ++k)
    {
      bool alive = baseAlive(static_cast<int>(k));
      if(alive)
        VT_CHECK(!bases[k].alive.expired(), "lifetime-early", "storage released while a related variable is alive");
      else
        VT_CHECK(bases[k].alive.expired(), "lifetime-leak", "variable ", bases[k].name, " still alive without any owner");
    }
  }

  void checkOne(const Handle & h)
  {
    auto & c = chains[static_cast<size_t>(h.chain)];
    auto & b = bases[static_cast<size_t>(c.base)];
    auto & v = *h.p;
    auto n = hname(h);
    VT_CHECK(v.size() == size(h), "size", n, " size ", v.size());
    VT_CHECK(v.value().size() == size(h), "size", n);
    VT_CHECK(v.derivativeNumber() == h.order, "derivative-number", n, " got ", v.derivativeNumber());
    VT_CHECK(v.isBasePrimitive() == (h.order == 0), "derivative-number", n);
    VT_CHECK(v.isEuclidean() == (h.order > 0 || c.space.isEuclidean()), "euclidean", n);
    VT_CHECK(v.space() == c.space, "space", n, v.space().sizeAsString());
    VT_CHECK(v.spaceShift().rSize() == c.shift.rSize() && v.spaceShift().tSize() == c.shift.tSize()
                 && v.spaceShift().size() == c.shift.size(),
             "space-shift", n, v.spaceShift().sizeAsString());
    VectorXd want = b.val[static_cast<size_t>(h.order)].segment(start(h), size(h));
    VT_CHECK(vt::same(v.value(), want), "value", n, " got ", vt::show(v.value()), " expected ", vt::show(want));
    VT_CHECK(v.isSubvariable() == c.sub, "is-sub", n);
    VT_CHECK(v.isSuperVariable() == !c.sub, "is-sub", n);
    auto rg = v.subvariableRange();
    VT_CHECK(rg.start == start(h) && rg.dim == size(h), "range", n, " got ", rg.start, "+", rg.dim);
    auto tr = v.tSubvariableRange();
    VT_CHECK(tr.start == c.shift.tSize() && tr.dim == c.space.tSize(), "trange", n, " got ", tr.start, "+", tr.dim);
    auto s = v.superVariable();
    VT_CHECK(s->size() == (h.order ? b.space.tSize() : b.space.rSize()), "super", n);
    VT_CHECK(s->derivativeNumber() == h.order, "super", n);
    VT_CHECK(s->value().data() + start(h) == v.value().data(), "alias", n, " is not a window on its super-variable");
    auto bp = v.basePrimitive();
    VT_CHECK(c.obj.find(0) == c.obj.end() || c.obj[0] == bp.get(), "base-primitive", n);
    VT_CHECK(bp->derivativeNumber() == 0 && bp->size() == c.space.rSize(), "base-primitive", n);
    vt::count("handles_compared");
  }

  void checkPair(const Handle & g, const Handle & h)
  {
    auto & cg = chains[static_cast<size_t>(g.chain)];
    auto & ch = chains[static_cast<size_t>(h.chain)];
    bool sameStore = cg.base == ch.base && g.order == h.order;
    int a0 = start(g), a1 = a0 + size(g), b0 = start(h), b1 = b0 + size(h);
    bool eq = sameStore && a0 == b0 && a1 == b1;
    bool cont = sameStore && a0 <= b0 && b1 <= a1;
    bool inter = sameStore && std::max(a0, b0) < std::min(a1, b1);
    auto d = vt::str(hname(g), " vs ", hname(h));
    VT_CHECK((*g.p == *h.p) == eq, "equality", d);
    VT_CHECK((*g.p != *h.p) == !eq, "equality", d);
    VT_CHECK(g.p->contains(*h.p) == cont, "contains", d);
    VT_CHECK(g.p->intersects(*h.p) == inter, "intersects", d);
    VT_CHECK(g.p->isSuperVariableOf(*h.p) == (sameStore && !cg.sub && ch.sub), "is-super-of", d);
    if(g.chain == h.chain)
    {
      VT_CHECK(g.p->isDerivativeOf(*h.p) == (g.order > h.order), "is-derivative-of", d);
      VT_CHECK(g.p->isPrimitiveOf(*h.p) == (g.order < h.order), "is-primitive-of", d);
    }
    else if(cg.base != ch.base || a0 != b0 || a1 != b1 || g.order != h.order)
    {
      // different chains on different coordinates can never be derivatives of one another
      bool sameCoords = cg.base == ch.base && cg.shift.rSize() == ch.shift.rSize() && cg.space.rSize() == ch.space.rSize()
                        && cg.shift.tSize() == ch.shift.tSize() && cg.space.tSize() == ch.space.tSize();
      if(!sameCoords)
      {
        VT_CHECK(!g.p->isDerivativeOf(*h.p), "is-derivative-of", d);
        VT_CHECK(!g.p->isPrimitiveOf(*h.p), "is-primitive-of", d);
      }
    }
    if(g.p.get() != h.p.get())
      VT_CHECK(g.p->id() != h.p->id(), "id-unique", d);
    vt::count("pairs_compared");
  }

  void checkAll()
  {
    for(auto & h : hs)
      checkOne(h);
    for(int k = 0; k < 6; ++k)
      checkPair(r.pick(hs), r.pick(hs));
  }
};

void oneCase(vt::Rng & r)
{
  World w(r);
  int nb = r.i(1, 3);
  for(int i = 0; i < nb; ++i)
    w.newBase();
  int steps = r.i(8, 40);
  for(int s = 0; s < steps; ++s)
  {
    if(w.hs.empty())
      w.newBase();
    int k = r.i(0, 99);
#if FOCUS == 1
    if(k < 40)
      w.derive();
    else if(k < 55)
      w.toPrimitive();
    else if(k < 62)
      w.sub();
    else if(k < 88)
      w.write();
    else if(k < 93)
      w.dup();
    else if(k < 96)
      w.super();
    else
      w.newBase();
#elif FOCUS == 2
    if(k < 35)
      w.sub();
    else if(k < 50)
      w.derive();
    else if(k < 60)
      w.toPrimitive();
    else if(k < 85)
      w.write();
    else if(k < 92)
      w.super();
    else if(k < 97)
      w.dup();
    else
      w.newBase();
#else
    if(k < 25)
      w.sub();
    else if(k < 40)
      w.derive();
    else if(k < 52)
      w.toPrimitive();
    else if(k < 60)
      w.write();
    else if(k < 66)
      w.super();
    else if(k < 69)
      w.dup();
    else if(k < 96)
      w.drop();
    else
      w.newBase();
#endif
    w.checkAll();
  }
  // full pairwise pass at the end
  size_t lim = std::min<size_t>(w.hs.size(), 14);
  for(size_t a = 0; a < lim; ++a)
    for(size_t b = 0; b < lim; ++b)
      w.checkPair(w.hs[a], w.hs[b]);
  bool anySub = false, anyDer = false;
  for(auto & h : w.hs)
  {
    anySub |= w.chains[static_cast<size_t>(h.chain)].sub;
    anyDer |= h.order > 0;
  }
  if((FOCUS == 1 && anyDer) || (FOCUS == 2 && anySub) || FOCUS == 3)
    vt::nontrivial();
  // teardown in random order
  while(!w.hs.empty())
  {
    int i = r.i(0, static_cast<int>(w.hs.size()) - 1);
    w.hs.erase(w.hs.begin() + i);
    for(auto & h : w.hs)
      w.checkOne(h);
    if(w.hs.size() > 12)
      w.hs.resize(12);
  }
  w.checkDead();
}
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, oneCase); }

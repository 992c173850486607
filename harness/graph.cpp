// Update graph.
//  FOCUS=1 G01: a plan runs every needed update exactly once, after everything it depends on
//  FOCUS=2 G02: cyclic dependencies are refused, unneeded ones are not; raw dependency graph
//  FOCUS=3 G03: histories of additions / clear / re-planning; lifetime of the sources
//  FOCUS=4 G04: disabled outputs and updates
//  FOCUS=5 D01: log and probes
#include "vt.h"

#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/graph/internal/DependencyGraph.h>
#include <tvm/utils/graph.h>
#if FOCUS == 5
#  include <iostream>
#  include <regex>
#  include <tvm/diagnostic/GraphProbe.h>
#endif

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace tvm::graph;
using tvm::graph::internal::DependencyGraph;
using tvm::graph::internal::Inputs;

namespace
{
std::vector<std::pair<int, int>> g_trace; // executed (node, update)
std::set<int> g_alive;

/** A pure source. */
struct Source : public abstract::Outputs
{
  SET_OUTPUTS(Source, S0, S1)
  int k;
  Eigen::VectorXd v[2];
  const Eigen::VectorXd & s0() const { return v[0]; }
  const Eigen::VectorXd & s1() const { return v[1]; }
  explicit Source(int kk) : k(kk) { g_alive.insert(k); }
  ~Source() override { g_alive.erase(k); }
};

constexpr int L0 = 4, L1 = 3;
struct NodeA : public abstract::Node<NodeA>
{
  SET_OUTPUTS(NodeA, A0, A1, A2, A3)
  SET_UPDATES(NodeA, UA0, UA1, UA2, UA3)
  int k;
  Eigen::VectorXd v[7];
  const Eigen::VectorXd & a0() const { return v[0]; }
  const Eigen::VectorXd & a1() const { return v[1]; }
  const Eigen::VectorXd & a2() const { return v[2]; }
  const Eigen::VectorXd & a3() const { return v[3]; }
  explicit NodeA(int kk) : k(kk) { g_alive.insert(k); }
  ~NodeA() override { g_alive.erase(k); }
  void run(int u) { g_trace.push_back({k, u}); }
  void u0() { run(0); }
  void u1() { run(1); }
  void u2() { run(2); }
  void u3() { run(3); }
  virtual void reg(int u)
  {
    switch(u)
    {
      case 0:
        registerUpdates(Update::UA0, &NodeA::u0);
        break;
      case 1:
        registerUpdates(Update::UA1, &NodeA::u1);
        break;
      case 2:
        registerUpdates(Update::UA2, &NodeA::u2);
        break;
      default:
        registerUpdates(Update::UA3, &NodeA::u3);
    }
  }
  virtual int nOut() const { return L0; }
  virtual int nUp() const { return L0; }
  virtual void outDep(int o, int u) { addOutputDependency<NodeA>(static_cast<NodeA::Output_>(o), static_cast<NodeA::Update_>(u)); }
  virtual void intDep(int u, int v) { addInternalDependency<NodeA>(static_cast<NodeA::Update_>(u), static_cast<NodeA::Update_>(v)); }
  template<typename S, typename... O>
  void inDep(int u, S && s, O... o)
  { addInputDependency<NodeA>(static_cast<NodeA::Update_>(u), s, o...); }
  template<typename S, typename O>
  void dirDep(int out, S && s, O o)
  { addDirectDependency<NodeA>(static_cast<NodeA::Output_>(out), s, o); }
};
struct NodeB : public NodeA // outputs and updates extended
{
  SET_OUTPUTS(NodeB, B0, B1, B2)
  SET_UPDATES(NodeB, UB0, UB1, UB2)
  using NodeA::NodeA;
  Eigen::MatrixXd b0() const { return v[4]; }
  double b1() const { return v[5][0]; }
  const Eigen::VectorXd & b2() const { return v[6]; }
  void v0() { run(4); }
  void v1() { run(5); }
  void v2() { run(6); }
  void reg(int u) override
  {
    if(u < L0)
      return NodeA::reg(u);
    switch(u)
    {
      case 4:
        registerUpdates(NodeB::Update::UB0, &NodeB::v0);
        break;
      case 5:
        registerUpdates(NodeB::Update::UB1, &NodeB::v1);
        break;
      default:
        registerUpdates(NodeB::Update::UB2, &NodeB::v2);
    }
  }
  int nOut() const override { return L0 + L1; }
  int nUp() const override { return L0 + L1; }
  void outDep(int o, int u) override
  {
    if(o < L0 && u < L0)
      NodeA::outDep(o, u);
    else if(o < L0)
      addOutputDependency<NodeB>(static_cast<NodeA::Output_>(o), static_cast<NodeB::Update_>(u));
    else if(u < L0)
      addOutputDependency<NodeB>(static_cast<NodeB::Output_>(o), static_cast<NodeA::Update_>(u));
    else
      addOutputDependency<NodeB>({static_cast<NodeB::Output_>(o)}, static_cast<NodeB::Update_>(u));
  }
  void intDep(int u, int v) override
  {
    if(u < L0 && v < L0)
      NodeA::intDep(u, v);
    else if(u < L0)
      addInternalDependency<NodeB>(static_cast<NodeA::Update_>(u), static_cast<NodeB::Update_>(v));
    else if(v < L0)
      addInternalDependency<NodeB>(static_cast<NodeB::Update_>(u), static_cast<NodeA::Update_>(v));
    else
      addInternalDependency<NodeB>(static_cast<NodeB::Update_>(u), static_cast<NodeB::Update_>(v));
  }
  template<typename S, typename... O>
  void inDepB(int u, S && s, O... o)
  { addInputDependency<NodeB>(static_cast<NodeB::Update_>(u), s, o...); }
  template<typename S, typename O>
  void dirDepB(int out, S && s, O o)
  { addDirectDependency<NodeB>(static_cast<NodeB::Output_>(out), s, o); }
};

using Call = std::pair<int, int>; // node, update
struct MNode
{
  int kind; // 0 source, 1 NodeA, 2 NodeB
  int rank;
  std::shared_ptr<Source> s;
  std::shared_ptr<NodeA> a;
  std::set<int> registered;
  std::map<int, std::set<int>> out;                  // output -> updates
  std::map<int, std::pair<int, int>> direct;         // output -> (node, output)
  std::map<int, std::set<int>> internal;             // update -> updates
  std::map<int, std::set<std::pair<int, int>>> in;   // update -> (node, output)
  int nOut() const { return kind == 0 ? 2 : kind == 1 ? L0 : L0 + L1; }
  int nUp() const { return kind == 0 ? 0 : kind == 1 ? L0 : L0 + L1; }
};

struct World
{
  vt::Rng & r;
  std::vector<MNode> n;
  int nextId = 0;
  bool cyclic;

  World(vt::Rng & rr, bool c) : r(rr), cyclic(c)
  {
    g_trace.clear();
    g_alive.clear();
  }

  // apply f to the concrete (source pointer / reference, typed output)
  template<typename F>
  void withSrc(int src, int o, bool shared, F f)
  {
    auto & m = n[static_cast<size_t>(src)];
    if(m.kind == 0)
    {
      if(shared)
        f(m.s, static_cast<Source::Output_>(o));
      else
        f(*m.s, static_cast<Source::Output_>(o));
    }
    else if(o < L0)
    {
      if(shared)
        f(m.a, static_cast<NodeA::Output_>(o));
      else
        f(*m.a, static_cast<NodeA::Output_>(o));
    }
    else
    {
      auto b = std::static_pointer_cast<NodeB>(m.a);
      if(shared)
        f(b, static_cast<NodeB::Output_>(o));
      else
        f(*b, static_cast<NodeB::Output_>(o));
    }
  }
  void inDep(int k, int u, int src, int o, bool shared)
  {
    auto a = n[static_cast<size_t>(k)].a;
    withSrc(src, o, shared, [&](auto && s, auto out) {
      if(u < L0)
        a->inDep(u, s, out);
      else
        std::static_pointer_cast<NodeB>(a)->inDepB(u, s, out);
    });
    n[static_cast<size_t>(k)].in[u].insert({src, o});
  }
  void dirDep(int k, int out, int src, int o, bool shared)
  {
    auto a = n[static_cast<size_t>(k)].a;
    withSrc(src, o, shared, [&](auto && s, auto oo) {
      if(out < L0)
        a->dirDep(out, s, oo);
      else
        std::static_pointer_cast<NodeB>(a)->dirDepB(out, s, oo);
    });
    n[static_cast<size_t>(k)].direct[out] = {src, o};
  }

  void build(int count)
  {
    for(int k = 0; k < count; ++k)
    {
      MNode m;
      m.kind = r.b(0.15) ? 0 : r.i(1, 2);
      m.rank = k;
      if(m.kind == 0)
        m.s = std::make_shared<Source>(nextId);
      else if(m.kind == 1)
        m.a = std::make_shared<NodeA>(nextId);
      else
        m.a = std::make_shared<NodeB>(nextId);
      ++nextId;
      for(int u = 0; u < m.nUp(); ++u)
      {
        m.a->reg(u);
        m.registered.insert(u);
      }
      n.push_back(m);
    }
    // a global order over calls, hidden to the library: dependencies go from later to earlier ones (unless cyclic)
    std::vector<int> perm;
    for(int k = 0; k < count; ++k)
      perm.push_back(k);
    r.shuffle(perm);
    double pIn = r.d(0.2, 0.9), pInt = r.d(0, 0.4), pOut = r.d(0.2, 0.5);
    for(int q = 0; q < count; ++q)
    {
      int k = perm[static_cast<size_t>(q)];
      auto & m = n[static_cast<size_t>(k)];
      if(m.kind == 0)
        continue;
      std::vector<int> ord;
      for(int u = 0; u < m.nUp(); ++u)
        ord.push_back(u);
      r.shuffle(ord);
      for(int u = 0; u < m.nUp(); ++u)
        for(int v = 0; v < m.nUp(); ++v)
          if(r.b(pInt) && ord[static_cast<size_t>(v)] < ord[static_cast<size_t>(u)])
          {
            m.a->intDep(u, v);
            m.internal[u].insert(v);
            if(r.b(0.1))
              m.a->intDep(u, v); // repeated
          }
      for(int o = 0; o < m.nOut(); ++o)
      {
        if(q > 0 && r.b(0.2))
        {
          int src = perm[static_cast<size_t>(r.i(0, q - 1))];
          dirDep(k, o, src, r.i(0, n[static_cast<size_t>(src)].nOut() - 1), r.b(0.7));
        }
        else
          for(int u = 0; u < m.nUp(); ++u)
            if(r.b(pOut))
            {
              m.a->outDep(o, u);
              m.out[o].insert(u);
            }
      }
      for(int u = 0; u < m.nUp(); ++u)
      {
        int c = r.b(pIn) ? r.i(1, 3) : 0;
        for(int j = 0; j < c && q > 0; ++j)
        {
          int src = perm[static_cast<size_t>(r.i(0, q - 1))];
          inDep(k, u, src, r.i(0, n[static_cast<size_t>(src)].nOut() - 1), r.b(0.7));
        }
      }
    }
    if(cyclic)
    {
      int extra = r.i(1, 3);
      for(int e = 0; e < extra; ++e)
      {
        int k = r.i(0, count - 1);
        auto & m = n[static_cast<size_t>(k)];
        if(m.kind == 0)
          continue;
        if(r.b(0.4))
        {
          int u = r.i(0, m.nUp() - 1), v = r.i(0, m.nUp() - 1);
          m.a->intDep(u, v);
          m.internal[u].insert(v);
        }
        else
        {
          int src = r.i(0, count - 1);
          inDep(k, r.i(0, m.nUp() - 1), src, r.i(0, n[static_cast<size_t>(src)].nOut() - 1), false);
        }
      }
    }
  }

  // ---- model
  std::set<Call> outputCalls(int k, int o) const
  {
    auto & m = n[static_cast<size_t>(k)];
    std::set<Call> c;
    auto it = m.out.find(o);
    if(it != m.out.end())
      for(int u : it->second)
        c.insert({k, u});
    else
    {
      auto d = m.direct.find(o);
      if(d != m.direct.end())
        return outputCalls(d->second.first, d->second.second);
    }
    return c;
  }
  std::set<Call> deps(Call c) const
  {
    auto & m = n[static_cast<size_t>(c.first)];
    std::set<Call> d;
    auto i = m.internal.find(c.second);
    if(i != m.internal.end())
      for(int u : i->second)
        d.insert({c.first, u});
    auto j = m.in.find(c.second);
    if(j != m.in.end())
      for(auto & p : j->second)
      {
        auto oc = outputCalls(p.first, p.second);
        d.insert(oc.begin(), oc.end());
      }
    return d;
  }
  std::map<Call, std::set<Call>> needed(const std::vector<std::pair<int, int>> & req) const
  {
    std::map<Call, std::set<Call>> out;
    std::vector<Call> todo;
    for(auto & p : req)
      for(auto & c : outputCalls(p.first, p.second))
        todo.push_back(c);
    while(!todo.empty())
    {
      auto c = todo.back();
      todo.pop_back();
      if(out.count(c))
        continue;
      auto d = deps(c);
      out[c] = d;
      for(auto & x : d)
        todo.push_back(x);
    }
    return out;
  }
  static bool hasCycle(const std::map<Call, std::set<Call>> & g)
  {
    // Kahn
    std::map<Call, size_t> left;
    std::map<Call, std::vector<Call>> users;
    std::vector<Call> q;
    for(auto & p : g)
    {
      left[p.first] = p.second.size();
      for(auto & d : p.second)
        users[d].push_back(p.first);
      if(p.second.empty())
        q.push_back(p.first);
    }
    size_t done = 0;
    while(!q.empty())
    {
      auto c = q.back();
      q.pop_back();
      ++done;
      for(auto & u : users[c])
        if(--left[u] == 0)
          q.push_back(u);
    }
    return done != g.size();
  }
  void checkTrace(const std::map<Call, std::set<Call>> & need, const char * where)
  {
    std::map<Call, size_t> pos;
    for(size_t i = 0; i < g_trace.size(); ++i)
    {
      auto c = g_trace[i];
      VT_CHECK(need.count(c), "unneeded-update", where, ": update ", c.second, " of node ", c.first, " was not needed");
      VT_CHECK(pos.emplace(c, i).second, "repeated-update", where, ": update ", c.second, " of node ", c.first, " ran twice");
    }
    for(auto & p : need)
    {
      VT_CHECK(pos.count(p.first), "missing-update", where, ": update ", p.first.second, " of node ", p.first.first, " was not run");
      for(auto & d : p.second)
        VT_CHECK(pos.count(d) && pos[d] < pos[p.first], "order", where, ": (", p.first.first, ",", p.first.second,
                 ") ran before its dependency (", d.first, ",", d.second, ")");
    }
    vt::count("calls_observed", static_cast<long>(g_trace.size()));
    vt::count("plans_executed");
  }
  std::pair<int, int> someOutput()
  {
    int k = r.i(0, static_cast<int>(n.size()) - 1);
    return {k, r.i(0, n[static_cast<size_t>(k)].nOut() - 1)};
  }
  void request(Inputs & i, std::pair<int, int> o, bool shared)
  {
    withSrc(o.first, o.second, shared, [&](auto && s, auto out) { i.addInput(s, out); });
  }
};

std::string desc(const World & w)
{
  std::string s;
  for(size_t k = 0; k < w.n.size(); ++k)
  {
    s += vt::str("n", k, "k", w.n[k].kind, " ");
    for(auto & p : w.n[k].in)
      for(auto & q : p.second)
        s += vt::str("u", p.first, "<-", q.first, ".", q.second, " ");
    for(auto & p : w.n[k].internal)
      for(int q : p.second)
        s += vt::str("u", p.first, "<-u", q, " ");
  }
  return s;
}

#if FOCUS == 1
void oneCase(vt::Rng & r)
{
  World w(r, false);
  w.build(r.i(1, 8));
  vt::op(desc(w));
  CallGraph g;
  std::vector<std::pair<int, int>> req;
  int ni = r.i(1, 3);
  std::vector<std::shared_ptr<Inputs>> ins;
  for(int i = 0; i < ni; ++i)
  {
    auto in = std::make_shared<Inputs>();
    int c = r.i(1, 5);
    for(int j = 0; j < c; ++j)
    {
      auto o = w.someOutput();
      w.request(*in, o, r.b());
      req.push_back(o);
    }
    g.add(in);
    ins.push_back(in);
  }
  g.update();
  auto need = w.needed(req);
  for(int rep = 0; rep < 2; ++rep)
  {
    g_trace.clear();
    g.execute();
    w.checkTrace(need, "execute");
  }
  if(r.b(0.3))
  {
    // same through the utility function
    auto a = std::make_pair(r.i(0, static_cast<int>(w.n.size()) - 1), 0), b = std::make_pair(r.i(0, static_cast<int>(w.n.size()) - 1), 0);
    a.second = r.i(0, std::min(L0, w.n[static_cast<size_t>(a.first)].nOut()) - 1);
    b.second = r.i(0, std::min(L0, w.n[static_cast<size_t>(b.first)].nOut()) - 1);
    int b2 = r.i(0, std::min(L0, w.n[static_cast<size_t>(b.first)].nOut()) - 1);
    w.withSrc(a.first, a.second, true, [&](auto && s1, auto o1) {
      w.withSrc(b.first, b.second, true, [&](auto && s2, auto o2) {
        if constexpr(std::is_lvalue_reference_v<decltype(s1)>)
          if constexpr(!std::is_base_of_v<abstract::Outputs, std::decay_t<decltype(s1)>>
                       && !std::is_base_of_v<abstract::Outputs, std::decay_t<decltype(s2)>>)
          {
            auto u = tvm::utils::generateUpdateGraph(s1, o1, s2, o2, static_cast<decltype(o2)>(b2));
            g_trace.clear();
            u->execute();
            auto bb = b;
            bb.second = b2;
            w.checkTrace(w.needed({a, b, bb}), "generateUpdateGraph");
            vt::count("utility_graphs");
          }
      });
    });
  }
  if(need.size() >= 4)
    vt::nontrivial();
}
#elif FOCUS == 2
void rawGraph(vt::Rng & r)
{
  DependencyGraph g;
  std::vector<std::set<int>> m; // children
  auto add = [&] {
    auto id = g.addNode();
    VT_CHECK(id == m.size(), "node-id", id);
    m.push_back({});
  };
  int n0 = r.i(1, 9);
  for(int i = 0; i < n0; ++i)
    add();
  bool dag = r.b(0.6);
  int steps = r.i(0, 25);
  for(int s = 0; s < steps; ++s)
  {
    int n = static_cast<int>(m.size());
    int k = r.i(0, 9);
    if(k < 8 && n > 0)
    {
      int a = r.i(0, n - 1), b = r.i(0, n - 1);
      if(dag && a <= b)
        continue;
      vt::op("edge ", a, ">", b);
      bool fresh = m[static_cast<size_t>(a)].insert(b).second;
      VT_CHECK(g.addEdge(static_cast<size_t>(a), static_cast<size_t>(b)) == fresh, "edge-new", "");
    }
    else if(k == 8)
    {
      vt::op("node");
      add();
    }
    else if(n > 1)
    {
      int d = r.i(0, n - 1);
      vt::op("remove ", d);
      g.removeNode(static_cast<size_t>(d));
      m.erase(m.begin() + d);
      for(auto & c : m)
      {
        std::set<int> x;
        for(int v : c)
          if(v != d)
            x.insert(v > d ? v - 1 : v);
        c = x;
      }
      vt::count("nodes_removed");
    }
    if(r.b(0.02))
    {
      vt::op("clear");
      g.clear();
      m.clear();
    }
  }
  size_t n = m.size();
  VT_CHECK(g.size() == n, "graph-size", "");
  std::set<std::pair<size_t, size_t>> e;
  for(size_t i = 0; i < n; ++i)
    for(int c : m[i])
      e.insert({i, static_cast<size_t>(c)});
  VT_CHECK(g.edges() == e, "graph-edges", "");
  // reachability
  std::vector<std::vector<char>> R(n, std::vector<char>(n, 0));
  for(auto & p : e)
    R[p.first][p.second] = 1;
  for(size_t k = 0; k < n; ++k)
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        if(R[i][k] && R[k][j])
          R[i][j] = 1;
  bool cyc = false;
  for(size_t i = 0; i < n; ++i)
    cyc = cyc || R[i][i];
  // strongly connected components
  auto red = g.reduce();
  std::vector<int> comp(n, -1);
  for(size_t c = 0; c < red.first.size(); ++c)
    for(auto v : red.first[c])
    {
      VT_CHECK(v < n && comp[v] < 0, "scc-partition", "vertex ", v);
      comp[v] = static_cast<int>(c);
    }
  for(size_t i = 0; i < n; ++i)
  {
    VT_CHECK(comp[i] >= 0, "scc-partition", "vertex ", i, " in no component");
    for(size_t j = 0; j < n; ++j)
      if(i != j)
        VT_CHECK((comp[i] == comp[j]) == (R[i][j] && R[j][i]), "scc", i, " and ", j);
  }
  std::set<std::pair<size_t, size_t>> re;
  for(auto & p : e)
    if(comp[p.first] != comp[p.second])
      re.insert({static_cast<size_t>(comp[p.first]), static_cast<size_t>(comp[p.second])});
  VT_CHECK(red.second.edges() == re && red.second.size() == red.first.size(), "reduced-edges", "");
  // orders
  std::vector<size_t> ord;
  bool th = vt::throws([&] { ord = g.order(); });
  VT_CHECK(th == cyc, "order-cycle", "cyclic ", cyc, " refused ", th);
  std::vector<std::vector<size_t>> grp;
  bool th2 = vt::throws([&] { grp = g.groupedOrder(); });
  VT_CHECK(th2 == cyc, "order-cycle", "grouped: cyclic ", cyc, " refused ", th2);
  if(!cyc)
  {
    std::vector<int> pos(n, -1);
    VT_CHECK(ord.size() == n, "order-complete", "");
    for(size_t i = 0; i < n; ++i)
    {
      VT_CHECK(pos[ord[i]] < 0, "order-complete", "");
      pos[ord[i]] = static_cast<int>(i);
    }
    for(auto & p : e)
      VT_CHECK(pos[p.second] < pos[p.first], "order", p.first, ">", p.second);
    // groups: undirected components
    std::vector<int> uf(n);
    for(size_t i = 0; i < n; ++i)
      uf[i] = static_cast<int>(i);
    std::function<int(int)> find = [&](int x) { return uf[static_cast<size_t>(x)] == x ? x : find(uf[static_cast<size_t>(x)]); };
    for(auto & p : e)
      uf[static_cast<size_t>(find(static_cast<int>(p.first)))] = find(static_cast<int>(p.second));
    std::vector<int> gi(n, -1), gp(n, -1);
    int q = 0;
    for(size_t k = 0; k < grp.size(); ++k)
    {
      VT_CHECK(!grp[k].empty(), "groups", "empty group");
      for(auto v : grp[k])
      {
        VT_CHECK(gi[v] < 0, "groups", "vertex twice");
        gi[v] = static_cast<int>(k);
        gp[v] = q++;
      }
    }
    VT_CHECK(q == static_cast<int>(n), "groups", "missing vertices");
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        VT_CHECK((gi[i] == gi[j]) == (find(static_cast<int>(i)) == find(static_cast<int>(j))), "groups", i, " ", j);
    for(auto & p : e)
      VT_CHECK(gp[p.second] < gp[p.first], "group-order", p.first, ">", p.second);
    vt::count("acyclic_graphs");
  }
  else
    vt::count("cyclic_graphs");
  if(e.size() >= 3)
    vt::nontrivial();
}
void oneCase(vt::Rng & r)
{
  if(r.b(0.5))
    return rawGraph(r);
  World w(r, true);
  w.build(r.i(1, 6));
  vt::op(desc(w));
  CallGraph g;
  std::vector<std::pair<int, int>> req;
  auto in = std::make_shared<Inputs>();
  int c = r.i(1, 4);
  for(int j = 0; j < c; ++j)
  {
    auto o = w.someOutput();
    w.request(*in, o, false);
    req.push_back(o);
    vt::op("req ", o.first, ".", o.second);
  }
  g.add(in);
  auto need = w.needed(req);
  bool cyc = World::hasCycle(need);
  bool th = vt::throws([&] { g.update(); });
  VT_CHECK(th == cyc, "cycle", "needed updates ", (cyc ? "are cyclic but accepted" : "are acyclic but refused"));
  if(!cyc)
  {
    g_trace.clear();
    g.execute();
    w.checkTrace(need, "execute");
    vt::count("unneeded_cycles_ignored");
  }
  else
    vt::count("cycles_refused");
  if(need.size() >= 2)
    vt::nontrivial();
}
#elif FOCUS == 3
void oneCase(vt::Rng & r)
{
  World w(r, false);
  w.build(r.i(2, 7));
  vt::op(desc(w));
  std::vector<std::pair<int, int>> req, planned;
  auto g = std::make_unique<CallGraph>();
  std::vector<std::pair<std::shared_ptr<Inputs>, std::vector<std::pair<int, int>>>> ins;
  int steps = r.i(4, 14);
  bool executed = false;
  std::weak_ptr<Inputs> dropped;
  for(int s = 0; s < steps; ++s)
  {
    switch(r.i(0, 6))
    {
      case 0:
      case 1:
      {
        auto in = std::make_shared<Inputs>();
        std::vector<std::pair<int, int>> q;
        int c = r.i(0, 4);
        for(int j = 0; j < c; ++j)
        {
          auto o = w.someOutput();
          w.request(*in, o, r.b());
          q.push_back(o);
        }
        vt::op("add ", c);
        g->add(in);
        req.insert(req.end(), q.begin(), q.end());
        ins.push_back({in, q});
        break;
      }
      case 2:
        if(!ins.empty())
        {
          auto & p = r.pick(ins);
          vt::op("re-add");
          g->add(p.first);
          req.insert(req.end(), p.second.begin(), p.second.end());
        }
        break;
      case 3:
        vt::op("update");
        g->update();
        planned = req;
        break;
      case 4:
      case 5:
        vt::op("execute");
        g_trace.clear();
        g->execute();
        w.checkTrace(w.needed(planned), "history");
        executed = true;
        break;
      default:
        if(r.b(0.6))
        {
          vt::op("clear");
          std::vector<std::weak_ptr<Inputs>> old;
          for(auto & p : ins)
            old.push_back(p.first);
          g->clear();
          req.clear();
          planned.clear();
          g_trace.clear();
          g->execute();
          VT_CHECK(g_trace.empty(), "clear-plan", "a cleared graph still runs updates");
          if(r.b())
          {
            ins.clear();
            for(auto & o : old)
              VT_CHECK(o.expired(), "clear-keeps", "a cleared graph still holds what was added to it");
          }
          vt::count("clears");
        }
        else if(!ins.empty())
        {
          // users drop their request: the graph keeps working
          vt::op("drop request");
          ins.erase(ins.begin() + r.i(0, static_cast<int>(ins.size()) - 1));
        }
    }
  }
  g->update();
  g_trace.clear();
  g->execute();
  w.checkTrace(w.needed(req), "final");
  // inputs own the sources given as shared pointers, until they are removed
  {
    auto src = std::make_shared<Source>(1000);
    auto nod = std::make_shared<NodeA>(1001);
    Inputs i;
    bool sh = r.b(), shn = r.b();
    if(sh)
      i.addInput(src, Source::Output::S0, Source::Output::S1);
    else
      i.addInput(*src, Source::Output::S0, Source::Output::S1);
    if(shn)
      i.addInput(nod, NodeA::Output::A1);
    else
      i.addInput(*nod, NodeA::Output::A1);
    auto it = i.getInput(src);
    VT_CHECK(static_cast<bool>(it) && it->second == (std::set<int>{0, 1}), "get-input", "");
    Source * raw = src.get();
    NodeA * rawn = nod.get();
    VT_CHECK(!vt::throws([&] { i.removeInput(raw, Source::Output::S0); }), "remove-input", "");
    VT_CHECK(vt::throws([&] { i.removeInput(raw, Source::Output::S0); }), "remove-input", "an absent input was removed");
    it = i.getInput(src);
    VT_CHECK(static_cast<bool>(it) && it->second == (std::set<int>{1}), "get-input", "");
    src.reset();
    VT_CHECK((g_alive.count(1000) == 1) == sh, "source-owned", "");
    if(sh)
    {
      if(r.b())
        i.removeInput(raw, Source::Output::S1);
      else
        i.removeInput(raw);
      VT_CHECK(!g_alive.count(1000), "source-released", "a source whose inputs were all removed is still held");
      VT_CHECK(!static_cast<bool>(i.getInput(raw)), "get-input", "");
      VT_CHECK(vt::throws([&] { i.removeInput(raw); }), "remove-input", "an absent source was removed");
    }
    nod.reset();
    VT_CHECK((g_alive.count(1001) == 1) == shn, "source-owned", "");
    if(shn)
      VT_CHECK(static_cast<bool>(i.getInput(rawn)), "get-input", "");
    vt::count("lifetime_probes");
  }
  // the graph (through the inputs added to it) keeps the shared sources alive
  if(r.b(0.5))
  {
    auto a = std::make_shared<NodeA>(2000), b = std::make_shared<NodeA>(2001);
    a->reg(0);
    b->reg(0);
    b->outDep(0, 0);
    a->outDep(1, 0);
    b->inDep(0, a, NodeA::Output::A1);
    auto in = std::make_shared<Inputs>();
    in->addInput(b, NodeA::Output::A0);
    CallGraph h;
    h.add(in);
    h.update();
    in.reset();
    a.reset();
    b.reset();
    VT_CHECK(g_alive.count(2000) && g_alive.count(2001), "graph-owns", "");
    g_trace.clear();
    h.execute();
    VT_CHECK(g_trace == (std::vector<std::pair<int, int>>{{2000, 0}, {2001, 0}}), "graph-owns", "");
    h.clear();
    VT_CHECK(!g_alive.count(2000) && !g_alive.count(2001), "clear-keeps", "sources still alive after clear");
  }
  g.reset();
  ins.clear();
  w.n.clear();
  VT_CHECK(g_alive.empty(), "leak", "nodes still alive at the end");
  if(executed)
    vt::nontrivial();
}
#elif FOCUS == 4
// ---------------------------------------------------------------------------------------------- G04
struct P1 : public abstract::Node<P1>
{
  SET_OUTPUTS(P1, O0, O1, O2, O3)
  SET_UPDATES(P1, U0, U1, U2)
  DISABLE_OUTPUTS(P1::Output::O1)
  DISABLE_UPDATES(P1::Update::U1)
  void f() {}
  template<typename E>
  void reg(E u)
  { registerUpdates(u, &P1::f); }
  template<typename E>
  void reg2(E u, E v)
  { registerUpdates(u, &P1::f, v, &P1::f); }
  template<typename O, typename U>
  void od(O o, U u)
  { addOutputDependency<P1>(o, u); }
  template<typename O, typename U>
  void od2(std::initializer_list<O> o, U u)
  { addOutputDependency<P1>(o, u); }
  template<typename U>
  void id(U u, U v)
  { addInternalDependency<P1>(u, v); }
  template<typename U, typename S, typename... O>
  void in(U u, S && s, O... o)
  { addInputDependency<P1>(u, s, o...); }
  template<typename O, typename S, typename I>
  void dd(O o, S && s, I i)
  { addDirectDependency<P1>(o, s, i); }
};
struct P2 : public abstract::OutputSelector<P1>
{
  SET_OUTPUTS(P2, O4, O5)
};
struct P3 : public abstract::OutputSelector<P3, P2>
{
  SET_OUTPUTS(P3, O6, O7)
  template<typename... E>
  void dis(E... e)
  { disableOutput(e...); }
  template<typename... E>
  void en(E... e)
  { enableOutput(e...); }
};
struct P4 : public P1 // static flags cleared for derived class
{
  CLEAR_DISABLED_OUTPUTS()
  SET_OUTPUTS(P4, Q4)
};

template<typename F>
void withOut(int o, F f)
{
  if(o < 4)
    f(static_cast<P1::Output_>(o));
  else if(o < 6)
    f(static_cast<P2::Output_>(o));
  else
    f(static_cast<P3::Output_>(o));
}

void oneCase(vt::Rng & r)
{
  auto p = std::make_shared<P3>();
  bool dis[8] = {false, false, false, false, false, false, false, false};
  bool locked = false;
  auto on = [&](int o) { return o != 1 && !dis[o]; };
  int steps = r.i(5, 25);
  auto node = std::make_shared<P1>();
  std::set<int> regd, direct;
  std::map<int, int> od;
  for(int s = 0; s < steps; ++s)
  {
    int o = r.i(0, 7), o2 = r.i(0, 7);
    switch(r.i(0, 9))
    {
      case 0:
        vt::op("disable ", o, locked);
        withOut(o, [&](auto e) { VT_CHECK(vt::throws([&] { p->dis(e); }) == locked, "lock", "disable ", o); });
        if(!locked)
          dis[o] = true;
        break;
      case 1:
        vt::op("enable ", o, locked);
        withOut(o, [&](auto e) { VT_CHECK(vt::throws([&] { p->en(e); }) == (locked || o == 1), "lock", "enable ", o); });
        if(!locked && o != 1)
          dis[o] = false;
        break;
      case 2:
        vt::op("lock");
        p->lock();
        locked = true;
        break;
      case 3:
        vt::op("unlock");
        p->unlock();
        locked = false;
        break;
      case 4:
      {
        vt::op("request ", o, " ", o2);
        Inputs i;
        withOut(o, [&](auto e) {
          VT_CHECK(vt::throws([&] { i.addInput(p, e); }) == !on(o), "disabled-input", o);
          VT_CHECK(static_cast<bool>(i.getInput(p)) == on(o), "disabled-input-recorded", o);
          Inputs j;
          withOut(o2, [&](auto e2) {
            VT_CHECK(vt::throws([&] { j.addInput(p, e, e2); }) == (!on(o) || !on(o2)), "disabled-input", o, " ", o2);
            Inputs k;
            VT_CHECK(vt::throws([&] { k.addInput(*p, e, e2); }) == (!on(o) || !on(o2)), "disabled-input", o, " ", o2);
          });
        });
        vt::count("requests");
        break;
      }
      case 5:
      {
        vt::op("input-dep ", o, " ", o2);
        auto nd = std::make_shared<P1>();
        int u = r.i(0, 2);
        withOut(o, [&](auto e) {
          VT_CHECK(vt::throws([&] { nd->in(static_cast<P1::Update_>(u), p, e); }) == (!on(o) || u == 1), "disabled-input-dep", o);
          auto nd2 = std::make_shared<P1>();
          withOut(o2, [&](auto e2) {
            VT_CHECK(vt::throws([&] { nd2->in(static_cast<P1::Update_>(u), p, e, e2); }) == (!on(o) || !on(o2) || u == 1),
                     "disabled-input-dep-multi", o, " ", o2, " update ", u);
          });
        });
        vt::count("requests");
        break;
      }
      case 6:
      {
        int q = r.i(0, 3);
        bool refuse = !on(o) || q == 1 || od.count(q) || direct.count(q);
        vt::op("direct ", q, "<-", o);
        withOut(o, [&](auto e) {
          VT_CHECK(vt::throws([&] { node->dd(static_cast<P1::Output_>(q), p, e); }) == refuse, "direct-dep", q, " ", o);
        });
        if(!refuse)
          direct.insert(q);
        break;
      }
      case 7:
      {
        int q = r.i(0, 3), u = r.i(0, 2);
        bool refuse = q == 1 || direct.count(q);
        vt::op("out-dep ", q, " ", u);
        VT_CHECK(vt::throws([&] { node->od(static_cast<P1::Output_>(q), static_cast<P1::Update_>(u)); }) == refuse, "out-dep", q);
        if(!refuse)
          ++od[q];
        break;
      }
      case 8:
      {
        int u = r.i(0, 2), v = r.i(0, 2);
        vt::op("register ", u, " internal ", u, v);
        VT_CHECK(vt::throws([&] { node->reg(static_cast<P1::Update_>(u)); }) == (u == 1 || regd.count(u)), "register", u);
        if(u != 1)
          regd.insert(u);
        VT_CHECK(vt::throws([&] { node->id(static_cast<P1::Update_>(u), static_cast<P1::Update_>(v)); }) == (u == 1 || v == 1),
                 "internal-dep", u, " ", v);
        P1 n2;
        VT_CHECK(vt::throws([&] { n2.reg2(static_cast<P1::Update_>(u), static_cast<P1::Update_>(v)); })
                     == (u == 1 || v == 1 || u == v),
                 "register-multi", u, " ", v);
        break;
      }
      default:
        if(!locked && o != 1 && o2 != 1)
        {
          vt::op("multi ", o, " ", o2);
          bool d = r.b();
          withOut(o, [&](auto e) { withOut(o2, [&](auto e2) { d ? p->dis(e, e2) : p->en(e, e2); }); });
          dis[o] = dis[o2] = d;
        }
    }
    for(int k = 0; k < 8; ++k)
    {
      VT_CHECK(p->isOutputEnabled(k) == on(k), "enabled", "output ", k);
      withOut(k, [&](auto e) { VT_CHECK(p->isOutputEnabled(e) == on(k), "enabled", "output ", k); });
    }
    VT_CHECK(p->isLocked() == locked, "locked", "");
  }
  P1 a;
  P4 b;
  VT_CHECK(!a.isOutputEnabled(1) && a.isOutputEnabled(0) && b.isOutputEnabled(1) && b.isOutputEnabled(4), "static", "");
  VT_CHECK(a.isUpdateEnabled(P1::Update::U0) && !a.isUpdateEnabled(P1::Update::U1), "static", "");
  vt::nontrivial();
}
#elif FOCUS == 5
using tvm::diagnostic::GraphProbe;
using tvm::graph::internal::Log;
using tvm::graph::internal::Logger;

struct Quiet
{
  std::stringstream s;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

using Key = std::pair<int, int>; // (node, output or update)
template<typename T>
auto raw(T & p)
{
  if constexpr(std::is_base_of_v<abstract::Outputs, std::decay_t<T>>)
    return &p;
  else
    return p.get();
}
struct Closure
{
  std::set<Key> out, up;
};

struct Probed : World
{
  std::map<std::uintptr_t, int> id; // address -> node
  bool regS[2], regA[4], regB[7];
  using World::World;

  std::uintptr_t address(int k) const
  {
    auto & m = n[static_cast<size_t>(k)];
    return m.kind == 0 ? reinterpret_cast<std::uintptr_t>(m.s.get()) : reinterpret_cast<std::uintptr_t>(m.a.get());
  }
  void values()
  {
    for(auto & m : n)
    {
      for(int o = 0; o < m.nOut(); ++o)
      {
        Eigen::VectorXd v = r.vec(r.i(1, 3));
        if(r.b(0.3))
          v[r.i(0, static_cast<int>(v.size()) - 1)] = std::nan("");
        (m.kind == 0 ? m.s->v[o] : m.a->v[o]) = v;
      }
    }
  }
  Eigen::MatrixXd value(Key o) const
  {
    auto & m = n[static_cast<size_t>(o.first)];
    auto & v = m.kind == 0 ? m.s->v[o.second] : m.a->v[o.second];
    if(m.kind == 2 && o.second == 5)
      return v.head(1);
    return v;
  }
  bool readable(Key o) const
  {
    auto & m = n[static_cast<size_t>(o.first)];
    return m.kind == 0 ? regS[o.second] : m.kind == 1 ? regA[o.second] : regB[o.second];
  }
  void accessors(GraphProbe & p)
  {
    for(auto & b : regS)
      b = r.b(0.9);
    for(auto & b : regA)
      b = r.b(0.9);
    for(auto & b : regB)
      b = r.b(0.9);
    if(regS[0])
      p.registerAccessor<Source>(Source::Output::S0, &Source::s0);
    if(regS[1])
      p.registerAccessor<Source>(Source::Output::S1, &Source::s1);
    if(regA[0])
      p.registerAccessor<NodeA>(NodeA::Output::A0, &NodeA::a0);
    if(regA[1])
      p.registerAccessor<NodeA>(NodeA::Output::A1, &NodeA::a1);
    if(regA[2])
      p.registerAccessor<NodeA>(NodeA::Output::A2, &NodeA::a2);
    if(regA[3])
      p.registerAccessor<NodeA>(NodeA::Output::A3, &NodeA::a3);
    if(regB[0])
      p.registerAccessor<NodeB>(NodeA::Output::A0, &NodeA::a0);
    if(regB[1])
      p.registerAccessor<NodeB>(NodeA::Output::A1, &NodeA::a1);
    if(regB[2])
      p.registerAccessor<NodeB>(NodeA::Output::A2, &NodeA::a2);
    if(regB[3])
      p.registerAccessor<NodeB>(NodeA::Output::A3, &NodeA::a3);
    if(regB[4])
      p.registerAccessor<NodeB>(NodeB::Output::B0, &NodeB::b0);
    if(regB[5])
      p.registerAccessor<NodeB>(NodeB::Output::B1, &NodeB::b1,
                                [](double d) { return Eigen::MatrixXd(Eigen::MatrixXd::Constant(1, 1, d)); });
    if(regB[6])
      p.registerAccessor<NodeB>(NodeB::Output::B2, &NodeB::b2);
  }

  // what an output, an update directly depends on
  Closure depsOfOutput(Key o) const
  {
    Closure c;
    auto & m = n[static_cast<size_t>(o.first)];
    auto it = m.out.find(o.second);
    if(it != m.out.end())
      for(int u : it->second)
        c.up.insert({o.first, u});
    auto d = m.direct.find(o.second);
    if(d != m.direct.end())
      c.out.insert(d->second);
    return c;
  }
  Closure depsOfUpdate(Key u) const
  {
    Closure c;
    auto & m = n[static_cast<size_t>(u.first)];
    auto i = m.internal.find(u.second);
    if(i != m.internal.end())
      for(int v : i->second)
        c.up.insert({u.first, v});
    auto j = m.in.find(u.second);
    if(j != m.in.end())
      c.out.insert(j->second.begin(), j->second.end());
    return c;
  }
  /** Everything reached from the outputs o, going through the outputs passing the test only. */
  template<typename F>
  Closure closure(const std::set<Key> & o, F && pass) const
  {
    Closure c;
    std::vector<std::pair<bool, Key>> todo;
    for(auto & k : o)
      todo.push_back({true, k});
    while(!todo.empty())
    {
      auto [isOut, k] = todo.back();
      todo.pop_back();
      if(!(isOut ? c.out : c.up).insert(k).second || (isOut && !pass(k)))
        continue;
      Closure d = isOut ? depsOfOutput(k) : depsOfUpdate(k);
      for(auto & x : d.out)
        todo.push_back({true, x});
      for(auto & x : d.up)
        todo.push_back({false, x});
    }
    return c;
  }
  Key key(const Log::Output & o) const
  {
    auto it = id.find(o.owner.value);
    VT_CHECK(it != id.end(), "D01-unknown-output", "output ", o.name, " of an unknown node");
    return {it->second, o.id.value};
  }
  Key key(const Log::Update & u) const
  {
    auto it = id.find(u.owner.value);
    VT_CHECK(it != id.end(), "D01-unknown-update", "update ", u.name, " of an unknown node");
    return {it->second, u.id.value};
  }
  std::string name(Key k, bool out) const
  {
    auto kind = n[static_cast<size_t>(k.first)].kind;
    if(out)
      return kind == 0 ? vt::str("S", k.second) : k.second < L0 ? vt::str("A", k.second) : vt::str("B", k.second - L0);
    return k.second < L0 ? vt::str("UA", k.second) : vt::str("UB", k.second - L0);
  }
  std::string dotName(Key k, bool out) const
  { return vt::str(address(k.first), out ? "_out" : "_up", name(k, out)); }

  void same(const std::pair<std::vector<Log::Output>, std::vector<Log::Update>> & got, const Closure & c, const char * what)
  {
    Closure g;
    for(auto & o : got.first)
    {
      Key k = key(o);
      VT_CHECK(o.name == name(k, true), "D01-name", what, " ", o.name);
      VT_CHECK(g.out.insert(k).second, "D01-twice", what, " output ", o.name);
    }
    for(auto & u : got.second)
    {
      Key k = key(u);
      VT_CHECK(u.name == name(k, false), "D01-name", what, " ", u.name);
      VT_CHECK(g.up.insert(k).second, "D01-twice", what, " update ", u.name);
    }
    VT_CHECK(g.out == c.out, "D01-outputs", what, " ", g.out.size(), " outputs instead of ", c.out.size());
    VT_CHECK(g.up == c.up, "D01-updates", what, " ", g.up.size(), " updates instead of ", c.up.size());
    vt::count("subgraphs_compared");
  }

  void sameValues(const std::vector<GraphProbe::OutputVal> & got, const Closure & c, const char * what)
  {
    std::set<Key> seen;
    for(auto & v : got)
    {
      Key k = key(std::get<Log::Output>(v));
      VT_CHECK(seen.insert(k).second, "D01-value-twice", what);
      VT_CHECK(!std::get<tvm::VariablePtr>(v), "D01-value-variable", what);
      Eigen::MatrixXd e = value(k), m = std::get<Eigen::MatrixXd>(v);
      VT_CHECK(m.rows() == e.rows() && m.cols() == 1 && ((m.array() == e.array()) || (m.array().isNaN() && e.array().isNaN())).all(),
               "D01-value", what, " ", vt::show(m), " instead of ", vt::show(e));
      vt::count("values_compared");
    }
    for(auto & k : c.out)
      VT_CHECK(seen.count(k) == (readable(k) ? 1u : 0u), "D01-value-missing", what);
    for(auto & k : seen)
      VT_CHECK(c.out.count(k), "D01-value-unexpected", what);
  }

  /** Tree of what is followed up. */
  struct Tree
  {
    std::map<std::pair<bool, Key>, std::vector<Closure>> children;
  };
  Closure read(const GraphProbe::ProbeNode & t, Tree & all, int depth = 0)
  {
    VT_CHECK(depth < 1000, "D01-tree-depth", "");
    bool isOut = t.val.index() == 0;
    Key k = isOut ? key(mpark::get<Log::Output>(t.val)) : key(mpark::get<Log::Update>(t.val));
    Closure kids;
    for(auto & c : t.children)
    {
      VT_CHECK(c != nullptr, "D01-tree-null", "");
      bool o = c->val.index() == 0;
      Key q = o ? key(mpark::get<Log::Output>(c->val)) : key(mpark::get<Log::Update>(c->val));
      (o ? kids.out : kids.up).insert(q);
      read(*c, all, depth + 1);
    }
    all.children[{isOut, k}].push_back(kids);
    vt::count("tree_nodes");
    return kids;
  }
  template<typename F>
  void sameTree(const GraphProbe::ProbeNode & root, Key o, F && pass, const char * what)
  {
    VT_CHECK(root.val.index() == 0 && key(mpark::get<Log::Output>(root.val)) == o, "D01-tree-root", what);
    Tree t;
    read(root, t);
    Closure c = closure({o}, pass);
    Closure g;
    for(auto & p : t.children)
    {
      (p.first.first ? g.out : g.up).insert(p.first.second);
      Closure d;
      if(!p.first.first)
        d = depsOfUpdate(p.first.second);
      else if(pass(p.first.second))
        d = depsOfOutput(p.first.second);
      int expanded = 0;
      for(auto & k : p.second)
      {
        if(k.out.empty() && k.up.empty())
          continue;
        ++expanded;
        VT_CHECK(k.out == d.out && k.up == d.up, "D01-tree-children", what);
      }
      VT_CHECK(expanded == (d.out.empty() && d.up.empty() ? 0 : 1), "D01-tree-expanded", what, " expanded ", expanded, " times");
    }
    VT_CHECK(g.out == c.out && g.up == c.up, "D01-tree", what, " ", g.out.size(), "+", g.up.size(), " nodes instead of ",
             c.out.size(), "+", c.up.size());
    vt::count("trees_compared");
  }

  void dot(const std::string & s, const Closure * c, int only, const char * what)
  {
    using E = std::pair<std::string, std::string>;
    std::set<E> edges, colored, expected, expectedColored;
    std::set<std::string> orange;
    static const std::regex edge("([0-9]+_(?:out|up|in)[A-Z]+[0-9]+)->[^;]*?([0-9]+_(?:out|up)[A-Z]+[0-9]+)( \\[color=orange\\])?;");
    static const std::regex node("([0-9]+_(?:out|up)[A-Z]+[0-9]+) \\[label=[^;]*color=orange\\]");
    std::stringstream ss(s);
    std::string line;
    while(std::getline(ss, line))
    {
      std::smatch m;
      if(std::regex_search(line, m, edge))
      {
        std::string from = m[1];
        auto i = from.find("_in");
        if(i != std::string::npos)
          from = from.substr(0, i) + "_out" + from.substr(i + 3);
        edges.insert({from, m[2]});
        if(m[3].matched)
          colored.insert({from, m[2]});
      }
      else if(std::regex_search(line, m, node))
        orange.insert(m[1]);
    }
    std::set<std::string> expectedOrange;
    auto add = [&](Key a, bool ao, Key b, bool bo) {
      E e{dotName(a, ao), dotName(b, bo)};
      expected.insert(e);
      if(c && (ao ? c->out : c->up).count(a) && (bo ? c->out : c->up).count(b))
        expectedColored.insert(e);
    };
    for(int k = 0; k < static_cast<int>(n.size()); ++k)
    {
      if(only >= 0 && k != only)
        continue;
      auto & m = n[static_cast<size_t>(k)];
      for(int o = 0; o < m.nOut(); ++o)
      {
        Closure d = depsOfOutput({k, o});
        for(auto & x : d.out)
          add(x, true, {k, o}, true);
        for(auto & x : d.up)
          add(x, false, {k, o}, true);
      }
      for(int u = 0; u < m.nUp(); ++u)
      {
        Closure d = depsOfUpdate({k, u});
        for(auto & x : d.out)
          add(x, true, {k, u}, false);
        for(auto & x : d.up)
          add(x, false, {k, u}, false);
      }
    }
    if(c)
    {
      for(auto & o : c->out)
        expectedOrange.insert(dotName(o, true));
      for(auto & u : c->up)
        expectedOrange.insert(dotName(u, false));
    }
    VT_CHECK(edges == expected, "D01-dot-edges", what, " ", edges.size(), " edges instead of ", expected.size());
    VT_CHECK(colored == expectedColored, "D01-dot-colored", what, " ", colored.size(), " instead of ", expectedColored.size());
    VT_CHECK(orange == expectedOrange, "D01-dot-highlight", what, " ", orange.size(), " instead of ", expectedOrange.size());
    vt::count("dot_compared");
  }
};

void oneCase(vt::Rng & r)
{
  Log & log = const_cast<Log &>(Logger::logger().log());
  log = Log(); // addresses may have been used in former cases
  Logger::logger().enable();
  Probed w(r, false);
  w.build(r.i(1, 6));
  vt::op(desc(w));
  for(int k = 0; k < static_cast<int>(w.n.size()); ++k)
    w.id[w.address(k)] = k;
  GraphProbe gp;
  w.accessors(gp);
  auto all = [](Key) { return true; };

  struct G
  {
    std::unique_ptr<CallGraph> g = std::make_unique<CallGraph>();
    std::vector<std::shared_ptr<Inputs>> ins;
    std::vector<std::set<Key>> req;
    std::set<Key> wanted() const
    {
      std::set<Key> s;
      for(auto & q : req)
        s.insert(q.begin(), q.end());
      return s;
    }
  };
  std::vector<G> gs(static_cast<size_t>(r.i(1, 2)));
  auto addInputs = [&](G & g) {
    auto in = std::make_shared<Inputs>();
    std::set<Key> q;
    int c = r.i(1, 4);
    for(int j = 0; j < c; ++j)
    {
      auto o = w.someOutput();
      w.request(*in, o, r.b());
      q.insert(o);
    }
    g.g->add(in);
    g.ins.push_back(in);
    g.req.push_back(q);
  };
  for(auto & g : gs)
    for(int i = r.i(1, 3); i > 0; --i)
      addInputs(g);

  int steps = r.i(1, 4);
  for(int it = 0; it < steps; ++it)
  {
    if(it)
    {
      G & g = r.b() ? gs[0] : gs.back();
      int c = r.i(0, 3);
      vt::op("edit ", c);
      if(c == 0)
        addInputs(g);
      else if(c == 1)
      {
        g.g->clear();
        g.ins.clear();
        g.req.clear();
        addInputs(g);
      }
      else // some inputs are removed, and the graph is built again
      {
        size_t i = static_cast<size_t>(r.i(0, static_cast<int>(g.ins.size()) - 1));
        if(!g.req[i].empty())
        {
          Key o = *g.req[i].begin();
          bool whole = r.b();
          auto & in = *g.ins[i];
          w.withSrc(o.first, o.second, true, [&](auto && s, auto out) {
            if(whole)
              in.removeInput(raw(s));
            else
              in.removeInput(raw(s), out);
          });
          for(auto q = g.req[i].begin(); q != g.req[i].end();)
            if(*q == o || (whole && q->first == o.first))
              q = g.req[i].erase(q);
            else
              ++q;
        }
        g.g->clear();
        for(auto & in : g.ins)
          g.g->add(in);
        vt::count("inputs_removed");
      }
      vt::count("edits");
    }
    w.values();
    for(auto & g : gs)
    {
      Closure c = w.closure(g.wanted(), all);
      g.g->update();
      g_trace.clear();
      g.g->execute();
      VT_CHECK(std::set<Key>(g_trace.begin(), g_trace.end()) == c.up, "D01-model", "");
      w.same(log.subGraph(g.g.get()), c, "graph");
      w.sameValues(gp.listOutputVal(g.g.get()), c, "graph");
      if(!c.out.empty() && r.b(0.3))
        w.dot(log.generateDot(g.g.get()), &c, -1, "graph");
    }
    if(r.b(0.1))
      w.dot(log.generateDot(), nullptr, -1, "all");
    int node = r.i(0, static_cast<int>(w.n.size()) - 1);
    auto & m = w.n[static_cast<size_t>(node)];
    if(m.kind != 0 && r.b(0.3))
      w.dot(log.generateDot(Log::Pointer(m.a.get())), nullptr, node, "node");

    // from one output
    G & g = r.b() ? gs[0] : gs.back();
    auto pass = [&](int s) {
      return [&w, s](Key k) {
        if(!w.readable(k))
          return false;
        Eigen::MatrixXd v = w.value(k);
        if(s == 0)
          return true;
        if(s == 1)
          return v.hasNaN();
        return (v.array().abs() >= 0.2 && v.array().abs() <= 0.6).any();
      };
    };
    auto select = [&](int s) -> std::function<bool(const Eigen::MatrixXd &)> {
      if(s == 0)
        return [](const Eigen::MatrixXd &) { return true; };
      if(s == 1)
        return GraphProbe::hasNan;
      return GraphProbe::absInRange(0.2, 0.6);
    };
    auto sub = log.subGraph(g.g.get()).first;
    if(!sub.empty())
    {
      Log::Output o = r.pick(sub);
      Key k = w.key(o);
      Closure c = w.closure({k}, all);
      w.same(log.subGraph(o), c, "output");
      w.sameValues(gp.listOutputVal(o), c, "output");
      int s = r.i(0, 2);
      Quiet q;
      auto t = gp.followUp(o, select(s));
      w.sameTree(*t, k, pass(s), "output");
      std::stringstream os;
      gp.print(os, t);
      VT_CHECK(!os.str().empty(), "D01-print", "");
    }
    {
      int s = r.i(0, 2);
      Quiet q;
      auto ts = gp.followUp(g.g.get(), select(s));
      std::multiset<Key> roots, expected;
      for(auto & in : g.req)
        for(auto & k : in)
          if(pass(s)(k))
            expected.insert(k);
      for(auto & t : ts)
      {
        Key k = w.key(mpark::get<Log::Output>(t->val));
        roots.insert(k);
        w.sameTree(*t, k, pass(s), "graph");
      }
      VT_CHECK(roots == expected, "D01-roots", roots.size(), " instead of ", expected.size());
      std::stringstream os;
      gp.print(os, ts);
    }
    vt::mix(w.closure(g.wanted(), all).up.size());
  }
  CallGraph other;
  VT_CHECK(log.subGraph(&other).first.empty() && log.generateDot(&other).empty(), "D01-unknown-graph", "");
  VT_CHECK(vt::throws([&] { gp.followUp(&other); }), "D01-unknown-graph", "");
  if(r.b(0.1)) // nothing logged when disabled
  {
    Logger::logger().disable();
    size_t before[] = {log.updates_.size(), log.inputs_.size(), log.outputs_.size(), log.graphOutputs_.size()};
    Probed x(r, false);
    x.build(r.i(1, 3));
    CallGraph h;
    auto in = std::make_shared<Inputs>();
    x.request(*in, x.someOutput(), true);
    h.add(in);
    h.clear();
    size_t after[] = {log.updates_.size(), log.inputs_.size(), log.outputs_.size(), log.graphOutputs_.size()};
    VT_CHECK(std::equal(before, before + 4, after), "D01-disabled", "");
    Logger::logger().enable();
    vt::count("disabled");
  }
  vt::nontrivial();
}
#endif
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, oneCase); }

// Requirements, callbacks and events.
//  -DFOCUS=1 R01 solving requirements   2 E01 callbacks and tokens   3 E02 event sources and listeners
#include "vt.h"
#include <tvm/event/Listener.h>
#include <tvm/event/Source.h>
#include <tvm/internal/CallbackManager.h>
#include <tvm/requirements/SolvingRequirements.h>

#ifndef FOCUS
#  define FOCUS 1
#endif

using namespace vt;
using namespace tvm;
using namespace tvm::requirements;
using Eigen::VectorXd;
using VET = ViolationEvaluationType;
using internal::CallbackManager;
using internal::PairElementToken;

namespace
{
// ---------------------------------------------------------------------------------------------------------------- R01
struct ReqModel
{
  int p = 0;
  double w = 1;
  VectorXd aw;
  VET v = VET::L2;
  bool dp = true, dw = true, da = true, dv = true;
};

template<typename SR>
void compareReq(const SR & s, const ReqModel & m, const std::string & what)
{
  VT_CHECK(s.priorityLevel().value() == m.p, "R01-priority", what, " ", s.priorityLevel().value(), " expected ", m.p);
  VT_CHECK(s.weight().value() == m.w, "R01-weight", what, " ", s.weight().value(), " expected ", m.w);
  const VectorXd & a = s.anisotropicWeight().value();
  VT_CHECK(a.size() == m.aw.size() && (a.size() == 0 || a == m.aw), "R01-anisotropic-weight", what, " ", show(a));
  VT_CHECK(s.violationEvaluation().value() == m.v, "R01-violation-evaluation", what);
  VT_CHECK(s.priorityLevel().isDefault() == m.dp, "R01-default-priority", what, " ", m.dp);
  VT_CHECK(s.weight().isDefault() == m.dw, "R01-default-weight", what, " ", m.dw);
  VT_CHECK(s.anisotropicWeight().isDefault() == m.da, "R01-default-anisotropic-weight", what, " ", m.da);
  VT_CHECK(s.violationEvaluation().isDefault() == m.dv, "R01-default-violation-evaluation", what, " ", m.dv);
  count("requirements_compared");
}

/** All the subsets of arguments, several orders. */
template<typename SR>
std::unique_ptr<SR> build(Rng & r, int mask, const ReqModel & m)
{
  PriorityLevel P(m.p);
  Weight W(m.w);
  AnisotropicWeight A(m.aw);
  ViolationEvaluation V(m.v);
  bool o = r.b();
#define MK(...) return std::make_unique<SR>(__VA_ARGS__)
  switch(mask)
  {
    case 0:
      MK();
    case 1:
      MK(P);
    case 2:
      MK(W);
    case 3:
      if(o)
        MK(P, W);
      MK(W, P);
    case 4:
      MK(A);
    case 5:
      if(o)
        MK(P, A);
      MK(A, P);
    case 6:
      if(o)
        MK(W, A);
      MK(A, W);
    case 7:
      switch(r.i(0, 5))
      {
        case 0:
          MK(P, W, A);
        case 1:
          MK(P, A, W);
        case 2:
          MK(W, P, A);
        case 3:
          MK(W, A, P);
        case 4:
          MK(A, P, W);
        default:
          MK(A, W, P);
      }
    case 8:
      MK(V);
    case 9:
      if(o)
        MK(P, V);
      MK(V, P);
    case 10:
      if(o)
        MK(W, V);
      MK(V, W);
    case 11:
      if(o)
        MK(V, P, W);
      MK(W, V, P);
    case 12:
      if(o)
        MK(A, V);
      MK(V, A);
    case 13:
      if(o)
        MK(A, V, P);
      MK(P, V, A);
    case 14:
      if(o)
        MK(V, W, A);
      MK(A, V, W);
    default:
      switch(r.i(0, 7))
      {
        case 0:
          MK(P, W, A, V);
        case 1:
          MK(V, A, W, P);
        case 2:
          MK(W, P, V, A);
        case 3:
          MK(A, V, P, W);
        case 4:
          MK(W, V, A, P);
        case 5:
          MK(P, V, W, A);
        case 6:
          MK(V, P, A, W);
        default:
          MK(A, P, V, W);
      }
  }
#undef MK
}

void caseRequirements(Rng & r)
{
  ReqModel m;
  int mask = r.i(0, 15);
  auto dirty = [&](int k) {
    if(k == 0)
      m.p = r.b(0.2) ? 0 : r.i(0, 5), m.dp = false;
    if(k == 1)
      m.w = r.b(0.2) ? r.i(0, 1) : r.d(0, 10), m.dw = false;
    if(k == 2)
      m.aw = r.vec(r.i(1, 4), 0, 5), m.da = false;
    if(k == 3)
      m.v = static_cast<VET>(r.i(0, 2)), m.dv = false;
  };
  for(int k = 0; k < 4; ++k)
    if(mask & (1 << k))
      dirty(k);
  op("mask ", mask);
  VT_CHECK(throws([&] { Weight w(-r.d(1e-9, 3)); }), "R01-negative", "weight");
  VT_CHECK(throws([&] { PriorityLevel w(-r.i(1, 3)); }), "R01-negative", "priority");
  VectorXd bad = r.vec(r.i(1, 4), 0, 3);
  bad[r.i(0, static_cast<int>(bad.size()) - 1)] = -r.d(1e-9, 2);
  VT_CHECK(throws([&] { AnisotropicWeight w(bad); }), "R01-negative", "anisotropic weight");
  auto lw = build<SolvingRequirements>(r, mask, m);
  compareReq(*lw, m, "built");
  SolvingRequirements copy(*lw), assigned;
  assigned = *lw;
  compareReq(copy, m, "copied");
  compareReq(assigned, m, "assigned");
  std::unique_ptr<SolvingRequirementsWithCallbacks> cb;
  if(r.b())
    cb = std::make_unique<SolvingRequirementsWithCallbacks>(*lw);
  else
    cb = build<SolvingRequirementsWithCallbacks>(r, mask, m);
  compareReq(*cb, m, "with callbacks");
  long calls[4] = {0, 0, 0, 0}, expected[4] = {0, 0, 0, 0};
  struct Reg
  {
    int k;
    PairElementToken t;
  };
  std::vector<Reg> regs;
  auto manager = [&](int k) -> CallbackManager & {
    switch(k)
    {
      case 0:
        return cb->priorityLevel();
      case 1:
        return cb->weight();
      case 2:
        return cb->anisotropicWeight();
      default:
        return cb->violationEvaluation();
    }
  };
  int n = r.i(1, 20);
  for(int i = 0; i < n; ++i)
  {
    int c = r.i(0, 9);
    if(c <= 1 && regs.size() < 6)
    {
      int k = r.i(0, 3);
      // the new value is already there when the callback is called
      regs.push_back({k, manager(k).registerCallback([&, k]() {
                        ++calls[k];
                        if(k == 1)
                          VT_CHECK(cb->weight().value() == m.w, "R01-callback-value", cb->weight().value());
                        if(k == 0)
                          VT_CHECK(cb->priorityLevel().value() == m.p, "R01-callback-value", cb->priorityLevel().value());
                      })});
      op("reg", k);
      continue;
    }
    if(c == 2 && !regs.empty())
    {
      regs.erase(regs.begin() + r.i(0, static_cast<int>(regs.size()) - 1));
      op("unreg");
      continue;
    }
    int k = r.i(0, 3), how = r.i(0, 4);
    op("set", k, " ", how);
    if(how == 4) // invalid value
    {
      bool t = true;
      bool val = r.b();
      if(k == 0)
        t = throws([&] { val ? cb->priorityLevel().value(-1) : void(cb->priorityLevel() = -2); });
      if(k == 1)
        t = throws([&] { val ? cb->weight().value(-0.5) : void(cb->weight() = -1.); });
      if(k == 2)
        t = throws([&] { val ? cb->anisotropicWeight().value(bad) : void(cb->anisotropicWeight() = bad); });
      if(k == 0 && r.b())
        t = throws([&] { lw->priorityLevel().value(-1); });
      if(k == 1 && r.b())
        t = throws([&] { lw->weight().value(-0.5); });
      VT_CHECK(t, "R01-invalid-accepted", k);
      count("invalid_refused");
    }
    else
    {
      dirty(k);
      if(how == 3) // from a lightweight one, possibly default
      {
        bool def = r.b();
        if(def)
        {
          if(k == 0)
            m.p = 0, m.dp = true;
          if(k == 1)
            m.w = 1, m.dw = true;
          if(k == 2)
            m.aw.resize(0), m.da = true;
          if(k == 3)
            m.v = VET::L2, m.dv = true;
        }
        if(k == 0)
          cb->priorityLevel() = def ? PriorityLevel() : PriorityLevel(m.p);
        if(k == 1)
          cb->weight() = def ? Weight() : Weight(m.w);
        if(k == 2)
          cb->anisotropicWeight() = def ? AnisotropicWeight() : AnisotropicWeight(m.aw);
        if(k == 3)
          cb->violationEvaluation() = def ? ViolationEvaluation() : ViolationEvaluation(m.v);
        count("set_from_requirement");
      }
      else
      {
        if(k == 0)
          how ? cb->priorityLevel().value(m.p) : void(cb->priorityLevel() = m.p);
        if(k == 1)
          how ? cb->weight().value(m.w) : void(cb->weight() = m.w);
        if(k == 2)
          how ? cb->anisotropicWeight().value(m.aw) : void(cb->anisotropicWeight() = m.aw);
        if(k == 3)
          how ? cb->violationEvaluation().value(m.v) : void(cb->violationEvaluation() = m.v);
      }
      for(auto & g : regs)
        if(g.k == k)
          ++expected[k];
      count("changes");
    }
    compareReq(*cb, m, "changed");
    for(int j = 0; j < 4; ++j)
      VT_CHECK(calls[j] == expected[j], "R01-callbacks", "requirement ", j, ": ", calls[j], " calls instead of ", expected[j]);
  }
  // back to the lightweight version
  SolvingRequirements back(PriorityLevel(cb->priorityLevel()), Weight(cb->weight()), AnisotropicWeight(cb->anisotropicWeight()),
                           ViolationEvaluation(cb->violationEvaluation()));
  compareReq(back, m, "back");
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- E01
struct Entry
{
  int id = 0;
  bool alive = true;
  std::shared_ptr<std::vector<int>> heap; // detects the destruction of a callback under execution
};

struct Mgr
{
  std::unique_ptr<CallbackManager> m = std::make_unique<CallbackManager>();
  std::vector<std::shared_ptr<Entry>> entries; // in order of registration
};

struct Tok
{
  PairElementToken t;
  Mgr * m = nullptr;         // null: not paired with a manager
  std::shared_ptr<Entry> e;  // null: no callback
};

void caseCallbacks(Rng & r)
{
  std::vector<std::unique_ptr<Mgr>> ms;
  std::vector<std::unique_ptr<Tok>> ts;
  for(int i = r.i(1, 2); i > 0; --i)
    ms.push_back(std::make_unique<Mgr>());
  int next = 0, depth = 0;
  struct Call
  {
    int id;
    int depth;
  };
  std::vector<Call> log;
  std::function<void(Mgr *, int)> reg;
  std::function<void(Mgr *)> runAll;
  auto kill = [&](size_t k) { // drop a token
    if(ts[k]->e)
      ts[k]->e->alive = false;
    ts.erase(ts.begin() + static_cast<long>(k));
  };
  auto any = [&]() { return static_cast<size_t>(r.i(0, static_cast<int>(ts.size()) - 1)); };
  auto unreg = [&](size_t k) {
    Tok & t = *ts[k];
    if(!t.e)
      return;
    bool was = t.e->alive;
    VT_CHECK(was, "E01-model", "");
    t.m->m->unregisterCallback(t.t);
    t.e->alive = false;
    t.e.reset();
    VT_CHECK(!t.t.isPaired(), "E01-paired-after-unregister", "");
    VT_CHECK(throws([&] { t.m->m->unregisterCallback(t.t); }), "E01-unregistered-twice", "");
    t.m = nullptr;
  };
  reg = [&](Mgr * m, int action) {
    auto e = std::make_shared<Entry>();
    e->id = next++;
    auto heap = std::make_shared<std::vector<int>>(3, e->id);
    std::vector<int> own(4, e->id); // owned by the callback
    auto f = [&, e, heap, own, m, action]() {
      VT_CHECK(e->alive, "E01-dead-callback", e->id);
      log.push_back({e->id, depth});
      if(action == 1 && !ts.empty())
        kill(any());
      if(action == 2)
      {
        for(int i = 0; i < 3; ++i)
          reg(m, 0);
        count("registrations_in_callback");
      }
      if(action == 3 && !ts.empty())
        unreg(any());
      if(action == 4 && depth < 3)
        runAll(m);
      if(action == 5)
        throw std::runtime_error("callback");
      // the callback itself must still be there
      VT_CHECK(own.size() == 4 && own[3] == e->id && heap->at(2) == e->id, "E01-destroyed-callback", e->id);
    };
    auto t = std::make_unique<Tok>();
    if(r.b())
      t->t = m->m->registerCallback(f);
    else
    {
      PairElementToken p(m->m->registerCallback(f));
      t->t = std::move(p);
      VT_CHECK(!p.isPaired(), "E01-moved-from", "");
    }
    t->m = m;
    t->e = e;
    VT_CHECK(t->t.isPaired(), "E01-unpaired", "");
    m->entries.push_back(e);
    ts.push_back(std::move(t));
    op("reg", e->id, "a", action);
  };
  runAll = [&](Mgr * m) {
    auto before = m->entries;
    std::vector<bool> aliveBefore;
    for(auto & e : before)
      aliveBefore.push_back(e->alive);
    size_t l0 = log.size();
    ++depth;
    bool thrown = false;
    op("run");
    try
    {
      m->m->run();
    }
    catch(const std::runtime_error &)
    {
      thrown = true;
    }
    int d = depth--;
    // calls made by this very run
    std::vector<int> calls;
    for(size_t i = l0; i < log.size(); ++i)
      if(log[i].depth == d)
        calls.push_back(log[i].id);
    count("runs");
    count("calls", static_cast<long>(calls.size()));
    size_t k = 0;
    for(size_t i = 0; i < before.size(); ++i)
    {
      bool called = k < calls.size() && calls[k] == before[i]->id;
      if(called)
      {
        VT_CHECK(aliveBefore[i], "E01-dead-callback", before[i]->id);
        ++k;
      }
      else if(thrown && k == calls.size())
        break;
      else
        VT_CHECK(!aliveBefore[i] || !before[i]->alive, "E01-missed-callback", before[i]->id);
    }
    // what remains was registered meanwhile
    for(; k < calls.size(); ++k)
    {
      bool old = false;
      for(auto & e : before)
        old = old || e->id == calls[k];
      VT_CHECK(!old, "E01-order", "callback ", calls[k], " called twice or out of order");
      for(size_t j = k + 1; j < calls.size(); ++j)
        VT_CHECK(calls[j] != calls[k], "E01-called-twice", calls[k]);
    }
    m->entries.erase(std::remove_if(m->entries.begin(), m->entries.end(), [](auto & e) { return !e->alive; }),
                     m->entries.end());
  };
  int n = r.i(5, 40);
  bool calm = r.b(0.4);
  for(int i = 0; i < n; ++i)
  {
    int c = r.i(0, 13);
    Mgr * m = ms[static_cast<size_t>(r.i(0, static_cast<int>(ms.size()) - 1))].get();
    if(c <= 2 && ts.size() < 12)
      reg(m, calm || r.b() ? 0 : r.i(1, 5));
    else if(c <= 5)
      runAll(m);
    else if(c == 6 && !ts.empty())
    {
      op("drop");
      kill(any());
    }
    else if(c == 7 && !ts.empty())
    {
      op("unregister");
      unreg(any());
    }
    else if(c == 8 && ts.size() >= 2) // move into another token, that is overwritten
    {
      size_t a = any(), b = any();
      if(a == b)
        continue;
      op("move");
      if(ts[a]->e)
        ts[a]->e->alive = false;
      else if(ts[a]->t.isPaired() && !ts[b]->t.isPairedWith(ts[a]->t))
        const_cast<PairElementToken &>(ts[a]->t.otherPairElement()); // its pair becomes unpaired
      bool each = ts[b]->t.isPairedWith(ts[a]->t);
      bool paired = ts[b]->t.isPaired() && !each;
      ts[a]->t = std::move(ts[b]->t);
      ts[a]->e = std::move(ts[b]->e);
      ts[b]->e.reset();
      ts[a]->m = ts[b]->m;
      ts[b]->m = nullptr;
      VT_CHECK(ts[a]->t.isPaired() == paired, "E01-move-lost", paired);
      VT_CHECK(!ts[b]->t.isPaired(), "E01-moved-from", "");
    }
    else if(c == 9 && !ts.empty()) // move to a new place
    {
      size_t a = any();
      op("relocate");
      auto t = std::make_unique<Tok>(Tok{std::move(ts[a]->t), ts[a]->m, ts[a]->e});
      ts[a] = std::move(t);
    }
    else if(c == 10 && ms.size() > 1 && r.b(0.3))
    {
      op("drop manager");
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(ms.size()) - 1));
      for(auto & t : ts)
        if(t->m == ms[k].get())
        {
          VT_CHECK(!t->e || t->t.isPaired(), "E01-model", "");
          t->m = nullptr;
          t->e.reset();
        }
      ms.erase(ms.begin() + static_cast<long>(k));
      for(auto & t : ts)
        VT_CHECK(t->t.isPaired() == bool(t->e) || !t->m, "E01-paired-with-destroyed", "");
    }
    else if(c == 11 && ms.size() < 3)
      ms.push_back(std::make_unique<Mgr>());
    else if(c == 12)
    {
      // free tokens paired by hand
      auto a = std::make_unique<PairElementToken>(), b = std::make_unique<PairElementToken>();
      VT_CHECK(throws([&] { a->otherPairElement(); }), "E01-unpaired-access", "");
      a->pairWith(*b);
      VT_CHECK(a->isPairedWith(*b) && b->isPairedWith(*a) && &a->otherPairElement() == b.get(), "E01-pair", "");
      PairElementToken x;
      VT_CHECK(throws([&] { a->pairWith(x); }) && throws([&] { x.pairWith(*a); }) && !x.isPaired(), "E01-pair-twice", "");
      PairElementToken y(std::move(*b));
      VT_CHECK(a->isPairedWith(y) && y.isPairedWith(*a) && !b->isPaired(), "E01-pair-moved", "");
      if(r.b())
      {
        *b = std::move(*a);
        VT_CHECK(y.isPairedWith(*b) && !a->isPaired(), "E01-pair-moved", "");
        a.reset();
        VT_CHECK(y.isPairedWith(*b), "E01-pair-moved", "");
        b.reset();
      }
      else
        a.reset();
      VT_CHECK(!y.isPaired(), "E01-pair-destroyed", "");
      count("pairs");
    }
    // every token knows whether it is paired
    for(auto & t : ts)
      VT_CHECK(t->t.isPaired() == bool(t->e), "E01-state", t->e ? t->e->id : -1);
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------- E02
struct World2;
struct L : public event::Listener
{
  int id = 0, action = 0;
  World2 * w = nullptr;
  std::vector<int> own = std::vector<int>(5, 7);
  ~L() override;
  void process(event::Type t, const event::Source & s) override;
};

struct World2
{
  Rng & r;
  std::vector<std::unique_ptr<event::Source>> src;
  std::vector<std::vector<std::weak_ptr<L>>> reg;
  std::vector<std::shared_ptr<L>> held;
  std::vector<std::pair<int, const event::Source *>> log;
  int next = 0, depth = 0, alive = 0;
  World2(Rng & rr) : r(rr) {}
  std::shared_ptr<L> make(int action)
  {
    auto l = std::make_shared<L>();
    l->id = next++;
    l->action = action;
    l->w = this;
    ++alive;
    held.push_back(l);
    return l;
  }
  void regist(size_t s, const std::shared_ptr<L> & l)
  {
    src[s]->regist(l, event::Type::CONTACT_NUMBER_CHANGED);
    reg[s].push_back(l);
    op("regist s", s, " l", l->id);
  }
  void drop()
  {
    if(!held.empty())
    {
      size_t k = static_cast<size_t>(r.i(0, static_cast<int>(held.size()) - 1));
      op("drop l", held[k]->id);
      held.erase(held.begin() + static_cast<long>(k));
    }
  }
  size_t any() { return static_cast<size_t>(r.i(0, static_cast<int>(src.size()) - 1)); }
};
L::~L() { --w->alive; }
void L::process(event::Type t, const event::Source & s)
{
  VT_CHECK(t == event::Type::CONTACT_NUMBER_CHANGED, "E02-type", "");
  w->log.push_back({id, &s});
  if(action == 1)
    w->drop();
  if(action == 2)
    for(int i = 0; i < 4; ++i)
    {
      size_t k = w->any();
      w->regist(k, w->make(0));
      count("registrations_in_listener");
    }
  if(action == 3 && w->depth < 2)
  {
    ++w->depth;
    int x = action;
    action = 0;
    w->src[w->any()]->notify(t);
    action = x;
    --w->depth;
  }
  VT_CHECK(own.size() == 5 && own[4] == 7, "E02-destroyed", id);
}

void caseEvents(Rng & r)
{
  World2 w(r);
  int ns = r.i(1, 2);
  for(int i = 0; i < ns; ++i)
  {
    w.src.push_back(std::make_unique<event::Source>());
    w.reg.emplace_back();
  }
  bool calm = r.b(0.6);
  int n = r.i(4, 30);
  for(int i = 0; i < n; ++i)
  {
    int c = r.i(0, 9);
    if(c <= 2)
      w.regist(w.any(), w.make(calm ? 0 : r.i(0, 3)));
    else if(c == 3 && !w.held.empty())
      w.regist(w.any(), w.held[static_cast<size_t>(r.i(0, static_cast<int>(w.held.size()) - 1))]);
    else if(c <= 5)
      w.drop();
    else
    {
      size_t s = w.any();
      op("notify s", s);
      std::vector<std::weak_ptr<L>> before = w.reg[s];
      std::vector<int> ids, must;
      std::vector<std::pair<int, bool>> exp;
      for(auto & x : before)
        if(auto l = x.lock())
          ids.push_back(l->id);
      w.log.clear();
      w.src[s]->notify(event::Type::CONTACT_NUMBER_CHANGED);
      count("notifications");
      for(auto & x : w.log)
        VT_CHECK(!calm || x.second == w.src[s].get(), "E02-source", "");
      std::vector<int> got;
      for(auto & x : w.log)
        got.push_back(x.first);
      count("receptions", static_cast<long>(got.size()));
      if(calm)
        VT_CHECK(got == ids, "E02-receptions", got.size(), " receptions instead of ", ids.size());
      else
      {
        // everyone still there received it as many times as registered at least
        for(auto & x : before)
          if(auto l = x.lock())
          {
            long a = std::count(got.begin(), got.end(), l->id), b = std::count(ids.begin(), ids.end(), l->id);
            VT_CHECK(a >= b, "E02-missed", l->id);
          }
      }
    }
    // registering does not keep listeners alive
    std::set<L *> u;
    for(auto & l : w.held)
      u.insert(l.get());
    VT_CHECK(w.alive == static_cast<int>(u.size()), "E02-kept-alive", w.alive, " listeners instead of ", u.size());
  }
  nontrivial();
}
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
#if FOCUS == 1
    caseRequirements(r);
#elif FOCUS == 2
    caseCallbacks(r);
#else
    caseEvents(r);
#endif
  });
}

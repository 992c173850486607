// Elementary assignments (S08): t = op(t, w * M * f) for every operation, weight, multiplier, source and shape.
#include "pool.h"
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
#include <tvm/utils/memoryChecks.h>

using namespace vt;
using namespace tvm::scheme::internal;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
const AssignType AS[] = {COPY, ADD, SUB, MIN, MAX};
const WeightMult WS[] = {NONE, MINUS, SCALAR, DIAGONAL};
const MatrixMult MS[] = {IDENTITY, GENERAL, INVERSE_DIAGONAL};

/** The operands of an assignment. Sources, weights and multipliers are referred to by the assignment. */
template<typename T>
struct Operands
{
  static constexpr bool vec = T::ColsAtCompileTime == 1;
  double s = 1;       // scalar weight
  VectorXd d;         // diagonal weight
  MatrixXd M;         // multiplier, as a block of a larger matrix
  int mr = 0, mc = 0; // where
  MatrixXd from;      // container of the source
  int fr = 0, fc = 0;
  double cst = 0;
  int rows = 0, cols = 0;   // of the target
  int srows = 0, scols = 0; // of the source
  int mrows = 0, mcols = 0; // of the multiplier
};

template<typename T>
auto view(T & m, int r, int c, int h, int w)
{
  if constexpr(T::ColsAtCompileTime == 1)
    return m.segment(r, h);
  else
    return m.block(r, c, h, w);
}

template<typename T>
struct Case
{
  Rng & r;
  AssignType A;
  WeightMult W;
  MatrixMult M;
  Source F;
  static constexpr bool vec = T::ColsAtCompileTime == 1;
  Operands<T> o;
  std::vector<std::unique_ptr<T>> targets; // the containers
  std::vector<T> model;
  std::vector<std::unique_ptr<T>> sources;

  double val()
  {
    int k = r.i(0, 9);
    return k == 0 ? 0. : k == 1 ? 1. : k == 2 ? -1. : r.d(-3, 3);
  }
  void fill(T & m)
  {
    for(Eigen::Index i = 0; i < m.rows(); ++i)
      for(Eigen::Index j = 0; j < m.cols(); ++j)
        m(i, j) = val();
  }
  void fillM()
  {
    for(Eigen::Index i = 0; i < o.M.rows(); ++i)
      for(Eigen::Index j = 0; j < o.M.cols(); ++j)
        o.M(i, j) = M == INVERSE_DIAGONAL ? (r.b() ? 1 : -1) * r.d(0.5, 2) : val();
  }
  struct At
  {
    int t = 0, r = 0, c = 0; // target container and offset
    int f = 0, fr = 0, fc = 0; // source
    double cst = 0;
  };

  MatrixXd source(const At & a) const
  {
    if(F == CONSTANT)
      return MatrixXd::Constant(o.srows, 1, a.cst);
    const T & s = *sources[static_cast<size_t>(a.f)];
    MatrixXd res(o.srows, o.scols);
    for(int i = 0; i < o.srows; ++i)
      for(int j = 0; j < o.scols; ++j)
        res(i, j) = s(a.fr + i, vec ? 0 : a.fc + j);
    return res;
  }

  void apply(const At & a)
  {
    T & t = model[static_cast<size_t>(a.t)];
    MatrixXd res = MatrixXd::Zero(o.rows, o.cols);
    if(F != ZERO)
    {
      MatrixXd f = source(a);
      // no use of Eigen's products here
      for(int i = 0; i < o.rows; ++i)
        for(int j = 0; j < o.cols; ++j)
        {
          double v = 0;
          if(M == IDENTITY)
            v = f(i, j);
          else if(M == INVERSE_DIAGONAL)
            v = vec ? f(i, j) / o.M(o.mr + i, o.mc + i) : f(i, j) / o.M(o.mr + j, o.mc + j);
          else if(vec)
            for(int k = 0; k < o.mcols; ++k)
              v += o.M(o.mr + i, o.mc + k) * f(k, j);
          else
            for(int k = 0; k < o.mrows; ++k)
              v += f(i, k) * o.M(o.mr + k, o.mc + j);
          if(W == MINUS)
            v = -v;
          else if(W == SCALAR)
            v *= o.s;
          else if(W == DIAGONAL)
            v *= o.d[i];
          res(i, j) = v;
        }
    }
    for(int i = 0; i < o.rows; ++i)
      for(int j = 0; j < o.cols; ++j)
      {
        double & x = t(a.r + i, vec ? 0 : a.c + j);
        double v = res(i, j);
        switch(A)
        {
          case COPY:
            x = v;
            break;
          case ADD:
            x += v;
            break;
          case SUB:
            x -= v;
            break;
          case MIN:
            x = std::min(x, v);
            break;
          default:
            x = std::max(x, v);
        }
      }
  }

  int newTarget()
  {
    int h = o.rows + r.i(0, 2), w = vec ? 1 : o.cols + r.i(0, 2);
    auto t = std::make_unique<T>(h, w);
    fill(*t);
    model.push_back(*t);
    targets.push_back(std::move(t));
    return static_cast<int>(targets.size()) - 1;
  }
  int newSource()
  {
    auto t = std::make_unique<T>(o.srows + r.i(0, 2), vec ? 1 : o.scols + r.i(0, 2));
    fill(*t);
    sources.push_back(std::move(t));
    return static_cast<int>(sources.size()) - 1;
  }
  void place(At & a, bool tgt)
  {
    if(tgt)
    {
      a.t = targets.empty() || r.b(0.3) ? newTarget() : r.i(0, static_cast<int>(targets.size()) - 1);
      const T & t = *targets[static_cast<size_t>(a.t)];
      a.r = r.i(0, static_cast<int>(t.rows()) - o.rows);
      a.c = vec ? 0 : r.i(0, static_cast<int>(t.cols()) - o.cols);
    }
    else if(F == CONSTANT)
      a.cst = val();
    else
    {
      a.f = sources.empty() || r.b(0.3) ? newSource() : r.i(0, static_cast<int>(sources.size()) - 1);
      const T & t = *sources[static_cast<size_t>(a.f)];
      a.fr = r.i(0, static_cast<int>(t.rows()) - o.srows);
      a.fc = vec ? 0 : r.i(0, static_cast<int>(t.cols()) - o.scols);
    }
  }
  Eigen::Ref<T> tref(const At & a) { return view(*targets[static_cast<size_t>(a.t)], a.r, a.c, o.rows, o.cols); }
  Eigen::Ref<const T> fref(const At & a)
  { return view(static_cast<T &>(*sources[static_cast<size_t>(a.f)]), a.fr, a.fc, o.srows, o.scols); }

  void compare(const char * when)
  {
    for(size_t k = 0; k < targets.size(); ++k)
    {
      const T & t = *targets[k];
      const T & m = model[k];
      for(Eigen::Index i = 0; i < t.rows(); ++i)
        for(Eigen::Index j = 0; j < t.cols(); ++j)
          VT_CHECK(vt::close(t(i, j), m(i, j), 1e-12), "S08-value", when, " A", static_cast<int>(A), " W", static_cast<int>(W), " M",
                   static_cast<int>(M), " F", static_cast<int>(F), vec ? " vector" : " matrix", " target ", k, " (", i, ",", j, ") is ",
                   t(i, j), " instead of ", m(i, j));
      model[k] = t; // no accumulation of rounding errors
    }
  }

  template<AssignType A_, WeightMult W_, MatrixMult M_, Source F_>
  CompiledAssignmentWrapper<T> make(const At & a)
  {
    using Wr = CompiledAssignmentWrapper<T>;
    Eigen::Ref<T> t = tref(a);
    if constexpr(F_ == ZERO)
      return Wr::template make<A_, W_, M_, F_>(t);
    else
    {
      auto w = [&](const auto & f) {
        auto m = [&](const auto &... args) {
          if constexpr(M_ == IDENTITY)
            return Wr::template make<A_, W_, M_, F_>(t, args...);
          else
          {
            Eigen::Ref<const MatrixXd> mult = o.M.block(o.mr, o.mc, o.mrows, o.mcols);
            return Wr::template make<A_, W_, M_, F_>(t, args..., mult);
          }
        };
        if constexpr(W_ == SCALAR)
          return m(f, o.s);
        else if constexpr(W_ == DIAGONAL)
        {
          Eigen::Ref<const VectorXd> d = o.d;
          return m(f, d);
        }
        else
          return m(f);
      };
      if constexpr(F_ == CONSTANT)
        return w(a.cst);
      else
        return w(fref(a));
    }
  }
  using Maker = CompiledAssignmentWrapper<T> (Case::*)(const At &);
  template<size_t I>
  static Maker maker()
  {
    // I = ((a * 4 + w) * 3 + m) * 3 + f
    constexpr Source f = I % 3 == 0 ? EXTERNAL : I % 3 == 1 ? CONSTANT : ZERO;
    constexpr MatrixMult m = (I / 3) % 3 == 0 ? IDENTITY : (I / 3) % 3 == 1 ? GENERAL : INVERSE_DIAGONAL;
    constexpr WeightMult w = (I / 9) % 4 == 0 ? NONE : (I / 9) % 4 == 1 ? MINUS : (I / 9) % 4 == 2 ? SCALAR : DIAGONAL;
    constexpr AssignType a = (I / 36) == 0 ? COPY : (I / 36) == 1 ? ADD : (I / 36) == 2 ? SUB : (I / 36) == 3 ? MIN : MAX;
    if constexpr((f == CONSTANT && !vec) || (f == ZERO && (m != IDENTITY || w != NONE)))
      return nullptr;
    else
      return &Case::template make<a, w, m, f>;
  }
  template<size_t... I>
  static const std::array<Maker, sizeof...(I)> & table_(std::index_sequence<I...>)
  {
    static const std::array<Maker, sizeof...(I)> t = {maker<I>()...};
    return t;
  }
  static const std::array<Maker, 180> & table() { return table_(std::make_index_sequence<180>()); }

  Case(Rng & rr) : r(rr)
  {
    int ia = r.i(0, 4), iw = 0, im = 0, q = r.i(0, 9);
    F = q == 0 ? ZERO : (vec && q < 4) ? CONSTANT : EXTERNAL;
    if(F != ZERO)
    {
      iw = r.i(0, 3);
      im = r.i(0, 2);
    }
    A = AS[ia];
    W = WS[iw];
    M = MS[im];
    Maker mk = table()[static_cast<size_t>(((ia * 4 + iw) * 3 + im) * 3 + (F == EXTERNAL ? 0 : F == CONSTANT ? 1 : 2))];
    o.rows = r.i(r.b(0.1) ? 0 : 1, 5);
    o.cols = vec ? 1 : r.i(r.b(0.1) ? 0 : 1, 5);
    o.srows = o.rows;
    o.scols = o.cols;
    if(M == GENERAL)
    {
      if(vec)
        o.srows = r.i(r.b(0.1) ? 0 : 1, 5);
      else
        o.scols = r.i(r.b(0.1) ? 0 : 1, 5);
    }
    o.mrows = vec ? o.rows : o.scols;
    o.mcols = vec ? o.srows : o.cols;
    if(F == CONSTANT && M == INVERSE_DIAGONAL)
      o.mcols = o.mrows;
    o.d = r.vec(o.rows, -2, 2);
    o.s = r.d(-2, 2);
    o.mr = r.i(0, 2);
    o.mc = r.i(0, 2);
    o.M.resize(o.mrows + o.mr + r.i(0, 1), o.mcols + o.mc + r.i(0, 1));
    fillM();
    op(vec, ia, iw, im, static_cast<int>(F), o.rows == 0 || o.cols == 0 || o.srows == 0 || o.scols == 0);
    if(o.rows > 0 && o.cols > 0)
      nontrivial();
    count(vec ? "vectors" : "matrices");
    count(F == ZERO ? "zeros" : F == CONSTANT ? "constants" : "externals");

    struct Entry
    {
      CompiledAssignmentWrapper<T> w;
      At a;
    };
    std::vector<Entry> es;
    auto add = [&] {
      At a;
      place(a, true);
      place(a, false);
      es.push_back({(this->*mk)(a), a});
    };
    add();
    int n = r.i(4, 16);
    for(int k = 0; k < n; ++k)
    {
      size_t i = static_cast<size_t>(r.i(0, static_cast<int>(es.size()) - 1));
      Entry & e = es[i];
      switch(r.i(0, 11))
      {
        case 0: // the source changes
          for(auto & s : sources)
            fill(*s);
          op("source");
          break;
        case 1: // the weights change
          o.s = r.d(-2, 2);
          for(int j = 0; j < o.rows; ++j)
            o.d[j] = val();
          op("weight");
          break;
        case 2:
          fillM();
          op("multiplier");
          break;
        case 3: // other target of same size
          place(e.a, true);
          e.w.to(tref(e.a));
          op("to");
          break;
        case 4: // other source
          if(F == ZERO)
            break;
          place(e.a, false);
          if(F == CONSTANT)
            e.w.from(e.a.cst);
          else
            e.w.from(fref(e.a));
          op("from");
          break;
        case 5: // the wrong kind of source is refused
        {
          bool t = false;
          try
          {
            if(F == CONSTANT)
            {
              T m(o.srows, 1);
              m.setZero();
              e.w.from(m);
            }
            else
              e.w.from(2.);
          }
          catch(const std::runtime_error &)
          {
            t = true;
          }
          VT_CHECK(t, "S08-source-kind", "accepted");
          op("wrong");
          break;
        }
        case 6: // copies and moves are independent assignments on the same data
          if(es.size() < 4)
          {
            Entry c{e.w, e.a};
            es.push_back(std::move(c));
            op("copy");
          }
          break;
        case 7:
        {
          size_t j = static_cast<size_t>(r.i(0, static_cast<int>(es.size()) - 1));
          es[j].w = es[i].w; // including itself
          es[j].a = es[i].a;
          op("assign", i == j);
          break;
        }
        case 8:
        {
          CompiledAssignmentWrapper<T> tmp(std::move(e.w));
          e.w = std::move(tmp);
          op("move");
          break;
        }
        case 9: // target overwritten from outside
          for(size_t j = 0; j < targets.size(); ++j)
          {
            fill(*targets[j]);
            if(A == COPY && r.b(0.3))
              for(int q1 = 0; q1 < o.rows; ++q1)
                for(int q2 = 0; q2 < o.cols; ++q2)
                  if(static_cast<int>(j) == e.a.t)
                    (*targets[j])(e.a.r + q1, vec ? 0 : e.a.c + q2) = std::nan("");
            model[j] = *targets[j];
          }
          if(A == COPY)
            go(e.w, e.a);
          op("overwrite");
          break;
        case 10:
          if(es.size() < 4)
            add();
          op("new");
          break;
        default:
          break;
      }
      for(int rep = r.i(0, 2); rep > 0; --rep)
      {
        size_t j = static_cast<size_t>(r.i(0, static_cast<int>(es.size()) - 1));
        go(es[j].w, es[j].a);
      }
    }
    for(auto & e : es)
      go(e.w, e.a);
  }
  void go(CompiledAssignmentWrapper<T> & w, const At & a)
  {
    apply(a);
    {
      tvm::utils::ScopedMallocOverride no(false);
      w.run();
    }
    count("runs");
    compare("run");
  }
};

void oneCase(Rng & r)
{
  if(r.b())
    Case<MatrixXd> c(r);
  else
    Case<VectorXd> c(r);
}
} // namespace

int main(int argc, char ** argv) { return vt::run(argc, argv, oneCase); }

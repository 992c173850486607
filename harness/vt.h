// Common runtime-monitoring harness: deterministic case generation, oracle reporting, crash attribution.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vt
{
// ---------------------------------------------------------------- random source
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull)
  {
    next();
    next();
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int i(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1)); } // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double u() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double lo = -1, double hi = 1) { return lo + (hi - lo) * u(); }
  template<typename T>
  const T & pick(const std::vector<T> & v)
  { return v[static_cast<size_t>(i(0, static_cast<int>(v.size()) - 1))]; }
  template<typename T>
  void shuffle(std::vector<T> & v)
  {
    for(size_t k = v.size(); k > 1; --k)
      std::swap(v[k - 1], v[static_cast<size_t>(i(0, static_cast<int>(k) - 1))]);
  }
  Eigen::VectorXd vec(int n, double lo = -1, double hi = 1)
  {
    Eigen::VectorXd v(n);
    for(int k = 0; k < n; ++k)
      v[k] = d(lo, hi);
    return v;
  }
  Eigen::MatrixXd mat(int r, int c, double lo = -1, double hi = 1)
  {
    Eigen::MatrixXd m(r, c);
    for(int a = 0; a < r; ++a)
      for(int k = 0; k < c; ++k)
        m(a, k) = d(lo, hi);
    return m;
  }
  // values that are exact in binary with few bits: sums/products of a few of them are exact
  double dyadic(int range = 8) { return i(-4 * range, 4 * range) / 4.0; }
  Eigen::VectorXd dvec(int n, int range = 8)
  {
    Eigen::VectorXd v(n);
    for(int k = 0; k < n; ++k)
      v[k] = dyadic(range);
    return v;
  }
  Eigen::MatrixXd dmat(int r, int c, int range = 4)
  {
    Eigen::MatrixXd m(r, c);
    for(int a = 0; a < r; ++a)
      for(int k = 0; k < c; ++k)
        m(a, k) = dyadic(range);
    return m;
  }
};

// ---------------------------------------------------------------- reporting
struct Violation
{
  std::string key, msg;
};

struct State
{
  uint64_t seed = 1;
  long caseId = 0;
  std::map<std::string, long> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  long evals = 0;
  std::string label; // description of the current case (kept for replay)
  std::ostringstream trace; // operations of the current case
  uint64_t sig = 1469598103934665603ull; // structural hash of the current case
  bool nontrivial = false;
  bool verbose = false;
  FILE * out = nullptr;
  std::string outPath;
};
/** The state used by the current thread, if not the main one. */
inline State *& threadState()
{
  static thread_local State * s = nullptr;
  return s;
}
inline State & S()
{
  static State * s = new State;
  return threadState() ? *threadState() : *s;
}

/** Count an observed event. */
inline void count(const char * n, long k = 1) { S().counters[n] += k; }

/** Add to the structural signature of the current case and to its trace. */
inline void mix(uint64_t v)
{
  auto & h = S().sig;
  for(int k = 0; k < 8; ++k)
  {
    h ^= (v >> (8 * k)) & 0xff;
    h *= 1099511628211ull;
  }
}
inline void mixs(const std::string & v)
{
  for(char c : v)
    mix(static_cast<uint64_t>(c));
}
template<typename... A>
void op(const A &... a)
{
  std::ostringstream os;
  ((os << a), ...);
  S().trace << os.str() << "; ";
  if(S().verbose)
    std::cerr << "  op: " << os.str() << std::endl;
  mixs(os.str());
}
/** Mark the current case as non trivial (rule given per property in the driver). */
inline void nontrivial() { S().nontrivial = true; }

[[noreturn]] inline void fail(const std::string & key, const std::string & msg) { throw Violation{key, msg}; }
template<typename... A>
std::string str(const A &... a)
{
  std::ostringstream os;
  os.precision(17);
  ((os << a), ...);
  return os.str();
}
#define VT_CHECK(cond, key, ...)                                                                     \
  do                                                                                                 \
  {                                                                                                  \
    ::vt::count("oracle_checks");                                                                    \
    if(!(cond))                                                                                      \
      ::vt::fail(key, ::vt::str("line ", __LINE__, ": " #cond " -- ", __VA_ARGS__));                 \
  } while(0)

/** Run \p f and say whether it threw something derived from std::exception. */
template<typename F>
bool throws(F && f)
{
  try
  {
    f();
  }
  catch(const Violation &)
  {
    throw;
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

inline bool close(double a, double b, double tol = 1e-9)
{
  if(std::isnan(a) || std::isnan(b))
    return false;
  if(a == b)
    return true;
  if(std::isinf(a) || std::isinf(b))
    return false;
  return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}
template<typename A, typename B>
bool close(const Eigen::MatrixBase<A> & a_, const Eigen::MatrixBase<B> & b_, double tol = 1e-9)
{
  Eigen::MatrixXd a = a_, b = b_;
  if(a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for(Eigen::Index r = 0; r < a.rows(); ++r)
    for(Eigen::Index c = 0; c < a.cols(); ++c)
      if(!close(a(r, c), b(r, c), tol))
        return false;
  return true;
}
template<typename A, typename B>
bool same(const Eigen::MatrixBase<A> & a_, const Eigen::MatrixBase<B> & b_)
{ return close(a_, b_, 0); }

template<typename A>
std::string show(const Eigen::MatrixBase<A> & a)
{
  static const Eigen::IOFormat f(6, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
  std::ostringstream os;
  os << Eigen::MatrixXd(a).format(f);
  return os.str();
}

/** One case; defined by each harness. */
using CaseFn = std::function<void(Rng &)>;
int run(int argc, char ** argv, const CaseFn & fn);
/** A constructor-time tweak: number of "special" cases with fixed scenarios that come first. */
} // namespace vt

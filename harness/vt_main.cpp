#include "vt.h"

#include <csignal>
#include <sys/time.h>
#include <unistd.h>

namespace vt
{
static void flushStats(bool fin)
{
  auto & s = S();
  if(s.outPath.empty())
    return;
  std::string tmp = s.outPath + ".tmp";
  {
    std::ofstream f(tmp);
    f << "case " << s.caseId << "\n" << "evals " << s.evals << "\n" << "final " << (fin ? 1 : 0) << "\n";
    for(auto & p : s.counters)
      f << "counter " << p.first << " " << p.second << "\n";
    for(auto & p : s.samples)
      f << "sample " << p << "\n";
    for(auto h : s.distinct)
      f << "h " << std::hex << h << std::dec << "\n";
  }
  rename(tmp.c_str(), s.outPath.c_str());
}

static void onHang(int)
{
  char buf[128];
  int n = snprintf(buf, sizeof(buf), "\nVT-HANG case=%ld\n", S().caseId);
  (void)!write(1, buf, static_cast<size_t>(n));
  _exit(77);
}

static std::string oneLine(std::string s, size_t lim = 3000)
{
  for(auto & c : s)
    if(c == '\n' || c == '\r')
      c = ' ';
  if(s.size() > lim)
    s = s.substr(0, lim) + "...";
  return s;
}

int run(int argc, char ** argv, const CaseFn & fn)
{
  auto & s = S();
  long from = 0, to = 100, step = 1, cpu = 60;
  for(int k = 1; k < argc; ++k)
  {
    std::string a = argv[k];
    auto val = [&]() { return std::string(argv[++k]); };
    if(a == "--seed")
      s.seed = std::stoull(val());
    else if(a == "--from")
      from = std::stol(val());
    else if(a == "--to")
      to = std::stol(val());
    else if(a == "--step")
      step = std::stol(val());
    else if(a == "--case")
    {
      from = std::stol(val());
      to = from + 1;
    }
    else if(a == "--stats")
      s.outPath = val();
    else if(a == "--cpu")
      cpu = std::stol(val());
    else if(a == "-v")
      s.verbose = true;
  }
  signal(SIGVTALRM, onHang);
  std::cout.setf(std::ios::unitbuf);
  for(long c = from; c < to; c += step)
  {
    s.caseId = c;
    s.sig = 1469598103934665603ull;
    s.nontrivial = false;
    s.trace.str("");
    // announce the case on a side channel, so that an abort can be attributed to it
    if(!s.outPath.empty())
    {
      FILE * f = fopen((s.outPath + ".cur").c_str(), "w");
      if(f)
      {
        fprintf(f, "%ld\n", c);
        fclose(f);
      }
    }
    itimerval tv{};
    tv.it_value.tv_sec = cpu;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    Rng r(s.seed * 1000003ull + static_cast<uint64_t>(c));
    std::string key, msg;
    bool bad = false;
    try
    {
      fn(r);
    }
    catch(const Violation & v)
    {
      bad = true;
      key = v.key;
      msg = v.msg;
    }
    catch(const std::exception & e)
    {
      bad = true;
      key = "unexpected-exception";
      msg = e.what();
    }
    catch(...)
    {
      bad = true;
      key = "unexpected-exception";
      msg = "unknown type";
    }
    ++s.evals;
    if(s.nontrivial)
    {
      if(s.distinct.insert(s.sig).second && s.samples.size() < 2)
        s.samples.push_back(oneLine(str("case ", c, ": ", s.trace.str()), 600));
    }
    if(bad)
    {
      std::printf("\nVT-VIOLATION case=%ld key=%s msg=%s TRACE=%s\n", c, oneLine(key, 300).c_str(), oneLine(msg).c_str(),
                  oneLine(s.trace.str()).c_str());
      std::fflush(stdout);
    }
    if((s.evals & 31) == 0 || bad)
      flushStats(false);
  }
  flushStats(true);
  return 0;
}
} // namespace vt

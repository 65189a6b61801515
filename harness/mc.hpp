// Tiny explicit-state / exhaustive-enumeration runtime shared by all harnesses.
//
// A harness enumerates *cases* (an input, a configuration, or an operation
// history).  Each case has a printable identity (its trace).  The runtime
//  - shards the case space (round robin) over processes,
//  - remembers the identity of the running case so that a crash, a sanitizer
//    report, an assertion or a hang is attributed to it,
//  - counts executions, transitions (operations executed on the real code),
//    distinct reference-model states and distinct outcomes,
//  - can re-run one single case (--case N) for replay.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <sys/time.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#if __cplusplus >= 201103L
#include <unordered_set>
#define MC_HASHSET std::unordered_set<uint64_t>
#else
#include <tr1/unordered_set>
#define MC_HASHSET std::tr1::unordered_set<uint64_t>
#endif
#include <stdexcept>
#include <stdint.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>

extern "C" void __sanitizer_set_death_callback(void (*callback)(void)) __attribute__((weak));

namespace mc
{
  struct State
  {
    bool thorough;
    long shard, nshards;
    long only_case;          // replay: run only this case of group only_group
    std::string only_group;
    long limit_fail;
    // counters
    long long executions, transitions, checks, skipped;
    long fails;
    long case_no;            // running number within the group
    std::string group;
    char cur[4096];          // identity of running case (async-signal-safe access)
    MC_HASHSET states;
    MC_HASHSET outcomes;
    std::set<std::string> fail_keys;
    std::vector<std::string> samples;
    std::map<std::string,long long> group_exec;
    bool capped;
    unsigned case_timeout;
    std::map<std::string,long long> extra;
    State() : thorough(false), shard(0), nshards(1), only_case(-1), limit_fail(8), executions(0), transitions(0), checks(0), skipped(0), fails(0), case_no(-1), capped(false), case_timeout(120) { cur[0] = 0; }
  };
  inline State & S() { static State s; return s; }

  inline void raw(const char * s) { if (write(1, s, strlen(s))) {} }
  inline void on_death() { static int once = 0; if (once++) return; fflush(stdout); raw("\nCRASH "); raw(S().cur); raw("\n"); }
  inline void on_signal(int sig)
  {
    bool hang = sig == SIGALRM || sig == SIGPROF;
    raw(hang ? "\nHANG " : "\nCRASH "); raw(S().cur);
    char b[32]; snprintf(b, sizeof b, " signal=%d\n", sig); raw(b);
    _exit(hang ? 97 : 98);
  }

  // limit for one case: CPU time, and three times as much wall time
  inline void set_timer(unsigned sec)
  {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, 0);
    alarm(3 * sec);
  }

  inline void init(int argc, char ** argv)
  {
    State & s = S();
    for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      if (a == "--tier" && i+1 < argc) s.thorough = std::string(argv[++i]) == "thorough";
      else if (a == "--shard" && i+2 < argc) { s.shard = atol(argv[i+1]); s.nshards = atol(argv[i+2]); i += 2; }
      else if (a == "--case" && i+2 < argc) { s.only_group = argv[i+1]; s.only_case = atol(argv[i+2]); i += 2; }
      else if (a == "--case-timeout" && i+1 < argc) s.case_timeout = (unsigned)atol(argv[++i]);
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_signal);
    signal(SIGALRM, on_signal);
    signal(SIGPROF, on_signal);
    if (!__sanitizer_set_death_callback)
    {
      static char stack[1 << 16]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = stack; st.ss_size = sizeof stack; sigaltstack(&st, 0);   // stack overflows too
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
      const char * mem = getenv("MC_MEM");
      if (mem && atol(mem) > 0) { struct rlimit l; l.rlim_cur = l.rlim_max = (rlim_t)atol(mem) << 20; setrlimit(RLIMIT_AS, &l); }
      sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0);
    }
  }

  inline void begin_group(std::string const & g) { S().group = g; S().case_no = -1; }

  // Returns true when the case is to be executed by this process.
  inline bool begin_case()
  {
    State & s = S();
    ++s.case_no;
    if (s.only_case >= 0) { if (s.group != s.only_group || s.case_no != s.only_case) return false; }
    else if (s.case_no % s.nshards != s.shard) return false;
    if (s.fails >= s.limit_fail) { s.capped = true; return false; }
    ++s.executions;
    ++s.group_exec[s.group];
    snprintf(s.cur, sizeof s.cur, "group=%s case=%ld trace=", s.group.c_str(), s.case_no);
    set_timer(s.case_timeout);
    return true;
  }
  inline void trace(std::string const & t)
  {
    State & s = S();
    size_t l = strlen(s.cur);
    snprintf(s.cur + l, sizeof s.cur - l, "%s ", t.c_str());
    for (char * c = s.cur + l; *c; ++c) if (*c == '\n' || *c == '\r') *c = ' ';
  }
  inline void transition(long n = 1) { S().transitions += n; }

  inline uint64_t fnv(std::string const & x)
  { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < x.size(); ++i) { h ^= (unsigned char)x[i]; h *= 1099511628211ull; } return h; }
  inline void state(std::string const & x) { S().states.insert(fnv(x)); }
  inline void outcome(std::string const & x)
  {
    State & s = S();
    bool fresh = s.outcomes.insert(fnv(x)).second;
    if (fresh && s.samples.size() < 4) s.samples.push_back(std::string(s.cur) + " => " + x.substr(0, 300));
  }

  // key: stable short identification of the kind of violation
  inline void fail(std::string const & key, std::string const & msg)
  {
    State & s = S();
    ++s.fails;
    printf("FAIL key=%s %s :: %s\n", key.c_str(), s.cur, msg.c_str());
    fflush(stdout);
  }
  inline bool check(bool ok, const char * key, std::string const & msg = "")
  {
    ++S().checks;
    if (!ok) fail(key, msg);
    return ok;
  }

#define MCHECK(ok, key, msg) (++mc::S().checks, (ok) ? true : (mc::fail(key, std::string("") + msg), false))

  inline int finish()
  {
    State & s = S();
    set_timer(0);
    for (size_t i = 0; i < s.samples.size(); ++i) printf("SAMPLE %s\n", s.samples[i].c_str());
    for (std::map<std::string,long long>::iterator it = s.group_exec.begin(); it != s.group_exec.end(); ++it) printf("GROUP %s %lld\n", it->first.c_str(), it->second);
    printf("STATS executions=%lld transitions=%lld checks=%lld states=%zu outcomes=%zu fails=%ld capped=%d\n", s.executions, s.transitions, s.checks, s.states.size(), s.outcomes.size(), s.fails, s.capped ? 1 : 0);
    printf("DONE\n");
    fflush(stdout);
    return s.fails ? 1 : 0;
  }

  template<class T> std::string str(T const & x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
  template<class C> std::string seq(C const & c) { std::ostringstream o; o.precision(17); o << "["; bool f = true; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { if (!f) o << ","; f = false; o << *i; } o << "]"; return o.str(); }
  inline bool close(double a, double b, double tol = 1e-9) { return std::fabs(a-b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

  // ---- depth-first exhaustive choice enumeration --------------------------
  // A case is one complete path of choices; explore() re-executes the body
  // with every path (stateless search).  body(chooser) must be deterministic.
  struct Chooser
  {
    std::vector<int> path, arity; size_t pos;
    Chooser() : pos(0) {}
    int operator()(int n)
    {
      if (pos == path.size()) { path.push_back(0); arity.push_back(n); }
      if (arity[pos] != n) { fprintf(stderr, "nondeterministic harness\n"); exit(5); }
      return path[pos++];
    }
    bool next()
    {
      path.resize(pos); arity.resize(pos);
      while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); }
      if (path.empty()) return false;
      ++path.back();
      return true;
    }
    void rewind() { pos = 0; }
  };
}
#endif

// Shared monitor runtime: deterministic PRNG, event counters, verdict reporting,
// per-case watchdog.  Every harness unit defines   void run_case(Rng&, long)   .
#ifndef VH_H_HPP
#define VH_H_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return u() < p; }
  double u() { return double(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * u(); }
  template<class V> void shuffle(V & v) { for (int i = int(v.size()) - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]); }
  template<class V> typename V::value_type pick(V const & v) { return v[below(int(v.size()))]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t hash_str(std::string const & s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Violation : std::exception
{
  std::string sig, detail;
  Violation(std::string s, std::string d) : sig(s), detail(d) {}
  const char * what() const noexcept override { return sig.c_str(); }
  ~Violation() noexcept {}
};

struct Monitor
{
  std::map<std::string, long> ev;         // named events observed
  std::set<uint64_t> states;              // distinct non-trivial observed states/cases
  long cases = 0, checks = 0, failures = 0;
  std::vector<std::string> samples;
  std::string prop, scratch;
  uint64_t seed = 0; long cur = 0;
  void hit(std::string const & k, long n = 1) { ev[k] += n; }
  void state(uint64_t h) { states.insert(h); }
  bool quiet = false;
  void sample(std::string const & s) { if (!quiet && samples.size() < 3) samples.push_back(s); }
};
inline Monitor & mon() { static Monitor m; return m; }

#define VH_CAT2(a,b) a##b
#define CHECK(cond, sig, detail) do { ++mon().checks; if (!(cond)) { std::ostringstream vh_os; vh_os.precision(17); vh_os << detail; throw Violation(sig, vh_os.str()); } } while (0)

// Mixed absolute/relative tolerance.
inline bool near(double a, double b, double tol, double scale = 1.0)
{
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= tol * std::max(scale, std::max(std::fabs(a), std::fabs(b)));
}

template<class T> std::string show(std::vector<T> const & v)
{ std::ostringstream o; o << "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; } o << "]"; return o.str(); }
template<class T> std::string show(std::set<T> const & v)
{ std::ostringstream o; o << "{"; bool f = true; for (auto const & x : v) { if (!f) o << ","; f = false; o << x; } o << "}"; return o.str(); }

inline std::string jesc(std::string const & s)
{
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += '?'; else o += char(c); }
  return o;
}

inline bool large_case() { return getenv("VH_LARGE") || mon().cur % 397 == 41; }   // some cases use meshes with several hundred cells
void run_case(Rng & rng, long index);

#ifdef LEAKS
// Allocation monitor: every case runs three times; heap growth in both repetitions is memory nobody released.
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static long vh_allocs = 0, vh_frees = 0;
static void vh_on_malloc(const volatile void *, size_t) { ++vh_allocs; }
static void vh_on_free(const volatile void * p) { if (p) ++vh_frees; }
#endif

static void vh_on_alarm(int)
{
  char b[96]; int n = snprintf(b, sizeof b, "\nHANG case=%ld\n", mon().cur);
  if (write(2, b, n)) {}
  _exit(87);
}

// args: <property> <seed> <first> <count> <progress-file> <scratch-dir> [case-timeout]
int main(int argc, char ** argv)
{
  if (argc < 7) { fprintf(stderr, "usage: prop seed first count progress scratch [timeout]\n"); return 64; }
  Monitor & m = mon();
  m.prop = argv[1]; m.seed = strtoull(argv[2], 0, 10);
  long first = atol(argv[3]), count = atol(argv[4]);
  int pfd = open(argv[5], O_CREAT | O_WRONLY | O_TRUNC, 0644);
  m.scratch = argv[6];
  int tmo = argc > 7 ? atoi(argv[7]) : 120;
  signal(SIGALRM, vh_on_alarm);
  std::streambuf * old = std::cout.rdbuf(); (void)old;
  static std::ostringstream sink;              // the library prints to std::cout; keep the verdict channel clean
  std::cout.rdbuf(sink.rdbuf());
  for (long i = first; i < first + count; ++i)
  {
    m.cur = i;
    char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i);
    if (pfd >= 0 && pwrite(pfd, b, n, 0) < 0) {}
    Rng rng(mix(mix(m.seed * 0x1000193u + 17, hash_str(m.prop)), uint64_t(i)));
    alarm(tmo);
#ifdef LEAKS
    {
      static bool hooked = __sanitizer_install_malloc_and_free_hooks(vh_on_malloc, vh_on_free); (void)hooked;
      size_t at[4] = {0, 0, 0, 0}; bool complete = true; long a0 = vh_allocs, f0 = vh_frees, d = 0;
      for (int rep = 0; rep < 3; ++rep)
      {
        at[rep] = __sanitizer_get_current_allocated_bytes(); Rng again = rng; m.quiet = rep > 0;
        try { run_case(again, i); } catch (Violation const &) { complete = false; } catch (std::exception const &) { complete = false; }   // what is wrong otherwise is for the other properties
        sink.str("");
        if (rep == 1) { a0 = vh_allocs - a0; f0 = vh_frees - f0; }
      }
      m.quiet = false; at[3] = __sanitizer_get_current_allocated_bytes(); d = long(at[3]) - long(at[2]);
      ++m.checks; m.hit(complete ? "case-accounted" : "case-ended-early");
      if (complete && at[2] > at[1] && d > 0)
      { ++m.failures; printf("FAIL\tmemory-not-released\t%ld\t%ld bytes allocated by the case were not released when everything was destroyed\n", i, d); fflush(stdout); }
      m.ev["allocations"] += a0; m.ev["deallocations"] += f0;
    }
#elif defined MEMCHECK
    try { run_case(rng, i); m.hit("memcheck-case"); ++m.checks; } catch (Violation const &) { m.hit("case-ended-early"); } catch (std::exception const &) { m.hit("case-ended-early"); }
#else
    try { run_case(rng, i); }
    catch (Violation const & v)
    {
      ++m.failures;
      printf("FAIL\t%s\t%ld\t%s\n", v.sig.c_str(), i, jesc(v.detail).c_str()); fflush(stdout);
    }
    catch (std::exception const & e)
    {
      ++m.failures;
      printf("FAIL\tunexpected-exception\t%ld\t%s\n", i, jesc(e.what()).c_str()); fflush(stdout);
    }
    catch (...)
    {
      ++m.failures;
      printf("FAIL\tunexpected-exception\t%ld\tunknown\n", i); fflush(stdout);
    }
#endif
    alarm(0);
    sink.str("");
    ++m.cases;
    if (m.failures >= 5) break;
  }
  std::ostringstream o;
  o << "STATS\t{\"cases\":" << m.cases << ",\"checks\":" << m.checks << ",\"failures\":" << m.failures << ",\"states\":[";
  bool f = true;
  for (uint64_t h : m.states) { if (!f) o << ","; f = false; o << h; }
  o << "],\"events\":{"; f = true;
  for (auto const & e : m.ev) { if (!f) o << ","; f = false; o << "\"" << jesc(e.first) << "\":" << e.second; }
  o << "},\"samples\":["; f = true;
  for (auto const & s : m.samples) { if (!f) o << ","; f = false; o << "\"" << jesc(s) << "\""; }
  o << "]}\n";
  fputs(o.str().c_str(), stdout); fflush(stdout);
  return m.failures ? 1 : 0;
}
#endif

// Bounded replay / search harness support.  Every harness compiles /repo's real sources with
// address and undefined-behaviour sanitizers and compares the library with an independent oracle.
#pragma once
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace oracle {
inline std::string current = "(start)";
inline std::string section = "";
inline unsigned long evals = 0;
inline std::set<std::string> samples_seen;
inline std::vector<std::string> samples;
inline std::set<std::uint64_t> distinct;
inline double budget = 10;
inline std::uint64_t seed = 1;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
struct rng_t {
  std::uint64_t s = 0x9E3779B97F4A7C15ull;
  std::uint64_t operator()() {
    s += 0x9E3779B97F4A7C15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? (*this)() % n : 0; }
  bool coin() { return (*this)() & 1; }
};
inline rng_t rng;
inline std::string hex(const std::string& s, std::size_t lim = 160) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < s.size() && i < lim; i++) { r += d[(s[i] >> 4) & 15]; r += d[s[i] & 15]; }
  if (s.size() > lim) r += "...";
  return r + "(" + std::to_string(s.size()) + " bytes)";
}
inline void report(const char* what) {
  std::string m = "FAILING-CASE [" + section + "] input: " + current + " :: " + what + "\n";
  (void)!write(1, m.data(), m.size());
}
[[noreturn]] inline void fail(const std::string& what) { report(what.c_str()); _exit(3); }
// a defect that is on record: the runner decides whether it is listed
inline void known(const char* key, const char* what) { printf("KNOWN %s %s\n", key, what); fflush(stdout); }
inline void begin(const std::string& sec) { section = sec; }
// one evaluated case; `desc` says which input it is
inline void one(const std::string& desc) {
  current = desc; evals++;
  std::uint64_t h = 1469598103934665603ull;
  for (char c : section) h = (h ^ (unsigned char)c) * 1099511628211ull;
  for (char c : desc) h = (h ^ (unsigned char)c) * 1099511628211ull;
  if (distinct.size() < 2000000) distinct.insert(h);
  if (samples.size() < 24 && samples_seen.insert(section).second) samples.push_back("[" + section + "] " + desc.substr(0, 200));
}
inline void onalarm(int) { report("no progress: the operation does not terminate"); _exit(4); }
inline void init(int argc, char** argv) {
  if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
  if (argc > 1) budget = atof(argv[1]);
  rng.s += seed * 0x1234567891ull;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] { report("memory error or undefined behaviour (see sanitizer report)"); });
  std::set_terminate([] {
    std::string w = "uncaught exception";
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {}
    report(w.c_str()); _exit(5);
  });
  signal(SIGABRT, [](int) { report("assertion failed / abort"); _exit(6); });
  signal(SIGALRM, onalarm);
  alarm((unsigned)(budget * 4 + 120));
}
inline int done() {
  printf("ORACLE-OK evaluations=%lu distinct=%zu elapsed=%.1f\n", evals, distinct.size(), elapsed());
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  return 0;
}
// share of the time budget: more() is true until fraction f of the budget has been used
inline bool more(double f) { return elapsed() < budget * f; }
}  // namespace oracle
#define REQUIRE(c, ...) do { if (!(c)) { std::ostringstream _o; _o << #c << " is false"; ::oracle::say(_o, ##__VA_ARGS__); ::oracle::fail(_o.str()); } } while (0)
namespace oracle {
inline void say(std::ostream&) {}
template <typename A, typename... B> void say(std::ostream& o, const A& a, const B&... b) { o << "; " << a; say(o, b...); }
}
// run f; returns the kind of outcome: 0 normal, 1 threw E, 2 threw another std::exception, 3 threw something else
template <typename E, typename F> int outcome(F&& f) {
  try { f(); return 0; } catch (const E&) { return 1; } catch (const std::exception&) { return 2; } catch (...) { return 3; }
}

// Stateless model-checking core: exhaustive depth-first enumeration of every
// sequence of nondeterministic choices (environment answers, operation
// sequences, thread schedules) within a bound on deviations.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {
// A choice among n alternatives, all explored.
int choose(int n, const char* tag);
// A choice among n alternatives; picking anything but 0 spends `cost`
// deviations of the scenario's bound.
int deviate(int n, const char* tag, int cost = 1);
// As deviate, with the cost of each alternative given separately.
int choose_costs(int n, const int* costs, const char* tag);

// Report a violation and end this execution (does not return).
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A harness-internal error: the check gives no verdict.
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Human readable trace (only kept when an execution is replayed or sampled).
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
// Fingerprint of a reached state / of the final observation of an execution.
void state(uint64_t h);
void outcome(const std::string& s);
// Count n checked cases inside one execution (evaluations of the oracle).
void evaluated(uint64_t n = 1);
// True when (signature) is listed for this property in known_findings.json.
bool known(const char* signature);
bool thorough();
int bound();       // deviation bound of the running pass
int deviations();  // spent so far in this execution

uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull) {
  return hash(s.data(), s.size(), seed);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  return a ^ (a >> 33);
}

struct Scenario {
  const char* name;
  void (*body)();
  int quick_bound;
  int thorough_bound;
  bool isolated;  // run every execution in a process of its own
  bool threads;   // body runs under the controlled scheduler
  bool fallback = false;  // isolated because executions influence one another
};
struct Register {
  explicit Register(Scenario s);
};

// Runs `body` under the controlled scheduler (defined in threads.cpp; a weak
// fallback just calls it).
void run_threads(void (*body)());

#define MC_CHECK(cond, ...)            \
  do {                                 \
    if (!(cond)) ::mc::fail(__VA_ARGS__); \
  } while (0)

#define MC_SCENARIO_(id, q, t, iso, thr)                                       \
  static void id();                                                            \
  static ::mc::Register mc_reg_##id{::mc::Scenario{#id, id, q, t, iso, thr}}; \
  static void id()
// quick/thorough: deviation bounds
#define MC_SCENARIO(id, quick, thorough) MC_SCENARIO_(id, quick, thorough, false, false)
#define MC_ISOLATED(id, quick, thorough) MC_SCENARIO_(id, quick, thorough, true, false)
#define MC_THREADS(id, quick, thorough) MC_SCENARIO_(id, quick, thorough, false, true)
}  // namespace mc

// mc: variant=asan skip=src/common/random.cpp
// C24: the random traversal for every sequence of random numbers.
#include <algorithm>
#include <array>
#include <set>
#include <vector>
#include "common/fast_random_number_generator.h"
#include "common/random_traverser.h"
#include "mc.h"
#include <random>
#include <chrono>
using namespace lightstep;
namespace {
FastRandomNumberGenerator engine;
uint64_t Inverse(uint64_t o) {  // a with (a ^ a<<23) ^ >>17 == o
  uint64_t x = o;
  for (int i = 0; i < 4; ++i) x = o ^ (x >> 17);
  uint64_t a = x;
  for (int i = 0; i < 4; ++i) a = x ^ (a << 23);
  return a;
}
struct Pair {
  uint64_t a, b;
  template <class It>
  void generate(It p, It e) {
    uint32_t w[4] = {(uint32_t)a, (uint32_t)(a >> 32), (uint32_t)b, (uint32_t)(b >> 32)};
    for (int i = 0; p != e; ++p) *p = w[i++ % 4];
  }
};
void Seed(uint64_t a, uint64_t b) {
  Pair p{a, b};
  engine.seed(p);
}
// the generator's next outputs: one per call of GetRandomNumberGenerator
std::vector<uint64_t> values;  // candidates
std::vector<int>* forced = nullptr;
size_t pos;
bool free_run = false;
void Candidates(int n) {
  std::set<std::pair<int, int>> fr;
  values.clear();
  std::set<uint64_t> v;
  for (int m = 1; m <= std::max(n, 1); ++m)
    for (int j = 0; j < m; ++j) v.insert((uint64_t)(((unsigned __int128)j << 64) / m) + (1u << 20) + 7);
  values.assign(v.begin(), v.end());
}
}  // namespace
namespace lightstep {
FastRandomNumberGenerator& GetRandomNumberGenerator() noexcept {
  if (free_run) return engine;
  int k;
  if (forced) {
    k = pos < forced->size() ? (*forced)[pos] : 0;
    ++pos;
  } else
    k = mc::choose((int)values.size(), "random");
  Seed(Inverse(values[k]), 0);
  FastRandomNumberGenerator copy = (const FastRandomNumberGenerator&)engine;
  if (copy() != values[k]) mc::internal_error("the generator cannot be controlled");
  return engine;
}
std::chrono::nanoseconds GenerateRandomDuration(std::chrono::nanoseconds a, std::chrono::nanoseconds) noexcept { return a; }
}  // namespace lightstep
namespace {
std::vector<int> Traverse(RandomTraverser& t, int n, int stop) {
  std::vector<int> seen;
  bool r = t.ForEachIndex([&](int i) {
    MC_CHECK(i >= 0 && i < n, "index %d of %d items", i, n);
    MC_CHECK(std::find(seen.begin(), seen.end(), i) == seen.end(), "index %d visited twice", i);
    MC_CHECK(stop < 0 || (int)seen.size() <= stop, "visited after the visitor stopped");
    seen.push_back(i);
    return (int)seen.size() - 1 != stop;
  });
  bool stopped = stop >= 0 && stop < n;
  MC_CHECK(r == !stopped, "traversal of %d items reports %d, %s", n, r, stopped ? "stopped by the visitor" : "completed");
  MC_CHECK((int)seen.size() == (stopped ? stop + 1 : n), "%zu of %d indexes visited", seen.size(), n);
  uint64_t h = n;
  for (int i : seen) h = mc::mix(h, i);
  mc::state(h);
  mc::evaluated();
  return seen;
}
void Body(int n, int times) {
  free_run = false;
  forced = nullptr;
  Candidates(n);
  RandomTraverser t{n};
  std::string o;
  for (int k = 0; k < times; ++k) {
    int stop = mc::choose(n + 1, "stop") - 1;
    for (int i : Traverse(t, n, stop)) o += std::to_string(i);
    o += '/';
  }
  mc::outcome(o);
}
}  // namespace
MC_SCENARIO(n0, 0, 0) { Body(0, 3); }
MC_SCENARIO(n1, 0, 0) { Body(1, 4); }
MC_SCENARIO(n2, 0, 0) { Body(2, 4); }
MC_SCENARIO(n3, 0, 0) { Body(3, 3); }
MC_SCENARIO(n4, 0, 0) { Body(4, mc::thorough() ? 2 : 2); }
MC_SCENARIO(n5, 0, 0) { Body(5, 1); }
MC_SCENARIO(n6, 0, 0) { Body(6, mc::thorough() ? 1 : 1); }
// every order is reachable
MC_SCENARIO(every_order, 0, 0) {
  int n = 1 + mc::choose(4, "n");
  free_run = false;
  Candidates(n);
  std::set<std::vector<int>> orders;
  size_t total = 1, fact = 1;
  for (int i = 2; i <= n; ++i) fact *= i;
  for (int i = 1; i < n; ++i) total *= values.size();
  for (size_t k = 0; k < total; ++k) {
    std::vector<int> f;
    for (size_t x = k, i = 1; i < (size_t)n; ++i, x /= values.size()) f.push_back((int)(x % values.size()));
    forced = &f;
    pos = 0;
    RandomTraverser t{n};
    orders.insert(Traverse(t, n, -1));
  }
  if (orders.size() < fact) {  // an implementation drawing differently: enumerate seeds instead
    free_run = true;
    for (uint64_t k = 1; k < 4000; ++k) {
      Seed(k * 0x9e3779b97f4a7c15ull, k * 0xbf58476d1ce4e5b9ull);
      RandomTraverser t{n};
      orders.insert(Traverse(t, n, -1));
    }
    free_run = false;
  }
  forced = nullptr;
  MC_CHECK(orders.size() == fact, "only %zu of %zu orders of %d items are ever produced", orders.size(), fact, n);
}

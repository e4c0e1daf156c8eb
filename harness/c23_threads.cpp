// mc: variant=mct
// C23: threads drawing ids, every interleaving.
#include <set>
#include <thread>
#include <vector>
#include "common/random.h"
#include "entropy.h"
#include "mc.h"
#include "threads.h"
using namespace lightstep;
namespace {
void Run(int n, int draws) {
  std::vector<std::vector<uint64_t>> got(n);
  auto body = [&](int i) {
    for (int k = 0; k < draws; ++k) got[i].push_back(GenerateId());
    auto a = GenerateIds<3>();
    for (auto x : a) got[i].push_back(x);
    auto d = GenerateRandomDuration(std::chrono::nanoseconds{5}, std::chrono::nanoseconds{9});
    MC_CHECK(d.count() >= 5 && d.count() <= 9, "duration %ld out of range", (long)d.count());
  };
  std::vector<std::thread> ts;
  entropy::fresh();
  for (int i = 0; i < n; ++i) ts.emplace_back(body, i);
  for (auto& t : ts) t.join();
  std::set<uint64_t> all;
  size_t cnt = 0;
  for (auto& g : got) {
    all.insert(g.begin(), g.end());
    cnt += g.size();
  }
  MC_CHECK(all.size() == cnt, "%zu of %zu ids are repeated", cnt - all.size(), cnt);
  mc::evaluated();
}
}  // namespace
MC_THREADS(two_threads, 3, 5) { Run(2, 2); }
MC_THREADS(three_threads, 2, 3) { Run(3, 1); }

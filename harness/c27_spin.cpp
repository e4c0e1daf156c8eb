// mc: variant=mct
// C27: the spin lock under every interleaving with relaxed-memory stale reads.
#include <string>
#include <thread>
#include <vector>
#include "common/spin_lock_mutex.h"
#include "mc.h"
#include "threads.h"
using namespace lightstep;
namespace {
void Run(int threads, int rounds, bool guard) {
  SpinLockMutex m;
  int inside = 0, a = 0, b = 0;  // plain: a missing hand-over is a data race
  std::string order;
  auto body = [&](int id) {
    auto section = [&] {
      MC_CHECK(inside == 0, "two threads are inside the lock");
      inside = 1;
      MC_CHECK(a == b, "a holder sees a half-made update (%d, %d)", a, b);
      ++a;
      mc::point("inside");
      ++b;
      order += (char)('0' + id);
      MC_CHECK(inside == 1, "another thread left the lock");
      inside = 0;
    };
    for (int r = 0; r < rounds; ++r) {
      if (guard) {
        SpinLockGuard g{m};
        section();
      } else {
        m.lock();
        section();
        m.unlock();
      }
    }
  };
  std::vector<std::thread> ts;
  for (int i = 1; i < threads; ++i) ts.emplace_back(body, i);
  body(0);
  for (auto& t : ts) t.join();
  MC_CHECK(a == threads * rounds && b == a, "%d of %d sections counted", a, threads * rounds);
  m.lock();  // can be taken again
  m.unlock();
  mc::outcome(order);
  mc::evaluated();
}
}  // namespace
MC_THREADS(two_threads, 8, 12) { Run(2, 2, true); }
MC_THREADS(two_threads_plain, 7, 10) { Run(2, 3, false); }
MC_THREADS(three_threads, 5, 8) { Run(3, 1, true); }
MC_THREADS(three_threads_twice, 4, 6) { Run(3, 2, false); }

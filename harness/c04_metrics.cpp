// mc: variant=mct
// C04: concurrent drops, announcements and give-backs of the dropped-span count.
#include <string>
#include <thread>
#include <vector>
#include "lightstep/metrics_observer.h"
#include "mc.h"
#include "recorder/metrics_tracker.h"
#include "threads.h"
using namespace lightstep;
namespace {
struct Observer : MetricsObserver {
  std::atomic<int> sent{0}, dropped{0};
  void OnSpansSent(int n) noexcept override { mc::NoPreempt np; sent += n; }
  void OnSpansDropped(int n) noexcept override { mc::NoPreempt np; dropped += n; }
  void OnFlush() noexcept override {}
};
// droppers: per-thread counts; giveback: which announcements fail and are given back
void Run(std::vector<std::vector<int>> drops, int consumers, int rounds) {
  Observer obs;
  MetricsTracker m{obs};
  int produced = 0;
  for (auto& d : drops)
    for (int n : d) produced += n;
  std::vector<int> announced(consumers);
  std::vector<std::thread> ts;
  for (auto& d : drops)
    ts.emplace_back([&m, d] {
      for (int n : d) m.OnSpansDropped(n);
    });
  auto consume = [&](int c) {
    for (int r = 0; r < rounds; ++r) {
      int n = m.ConsumeDroppedSpans();
      MC_CHECK(n >= 0, "announced %d dropped spans", n);
      if (r % 2 == 0)
        m.UnconsumeDroppedSpans(n);
      else
        announced[c] += n;
    }
  };
  for (int c = 1; c < consumers; ++c) ts.emplace_back(consume, c);
  consume(0);
  for (auto& t : ts) t.join();
  int sum = 0;
  std::string o;
  for (int a : announced) { sum += a; o += std::to_string(a) + ","; }
  MC_CHECK(sum + m.num_dropped_spans() == produced, "%d dropped, %d announced and %d pending", produced, sum, m.num_dropped_spans());
  MC_CHECK(obs.dropped == produced, "observer told of %d dropped spans, %d happened", (int)obs.dropped, produced);
  int rest = m.ConsumeDroppedSpans();
  MC_CHECK(rest + sum == produced && m.num_dropped_spans() == 0, "final announcement %d", rest);
  mc::outcome(o);
}
}  // namespace
MC_THREADS(two_droppers, 6, 9) { Run({{1, 2}, {4}}, 1, 3); }
MC_THREADS(dropper_two_announcers, 5, 8) { Run({{1, 2}}, 2, 2); }
MC_THREADS(droppers_announcers, 4, 6) { Run({{1}, {2, 4}}, 2, 2); }
MC_THREADS(three_droppers, 4, 7) { Run({{1}, {2}, {4}}, 1, 2); }

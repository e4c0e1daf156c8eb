// mc: variant=asan skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp
// C33: the offset between the clocks that the streaming recorder keeps, for
// every history of time passing, the system clock being set, spans being
// started and forks.
#include <atomic>
#include <chrono>
#include <tuple>
#include <vector>
#include "idle_recorder.h"
#include "tracer/utility.h"
using namespace lightstep;
using namespace std::chrono;
namespace {
const int64_t kPeriod = 500000;  // us
const int64_t kStart = 1600000000123456789ll, kSteady = 777000000999ll;
// read by the recorder's short-lived thread, too
std::atomic<int64_t> offset_ns{0}, now_ns{0};
int64_t Now() { return fake_event::world().now; }
}  // namespace
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point{nanoseconds{kStart + now_ns + offset_ns}}; }
steady_clock::time_point steady_clock::now() noexcept { return time_point{nanoseconds{kSteady + now_ns}}; }
}}}
MC_SCENARIO(kept_offset, 0, 0) {
  idle::World world;
  auto& events = world.events;
  struct Offset { int64_t from, value; };
  now_ns = 0, offset_ns = 0;
  std::vector<Offset> offsets{{INT64_MIN / 2, kStart - kSteady}};
  auto advance = [&](int64_t to) {
    events.w.now = to;
    now_ns = to * 1000;
  };
  auto r = world.Options();
  r.timestamp_delta_period = microseconds{kPeriod};
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  logger.set_level(LogLevel::off);
  std::unique_ptr<StreamRecorder> rec{new StreamRecorder{logger, world.TracerOptions(), std::move(r)}};
  world.Settle();
  // lets the timers run until then
  auto pass = [&](int64_t us) {
    int64_t until = Now() + us;
    for (;;) {
      event* e = fake_event::next_timer(events.w.bases[0]);
      if (!e || e->deadline > until) break;
      advance(std::max(Now(), e->deadline));
      fake_event::fire(e, EV_TIMEOUT);
    }
    advance(until);
  };
  int steps = mc::thorough() ? 6 : 5;
  for (int i = 0; i < steps; ++i) {
    int op = mc::choose(6, "step");
    if (op == 0) { mc::log("a fifth of the period passes"); pass(kPeriod / 5); }
    if (op == 1) { mc::log("a period passes"); pass(kPeriod); }
    if (op == 2 || op == 3) {
      offset_ns = op == 2 ? offset_ns + 3600000000000ll : offset_ns - 1000000007ll;
      mc::log("the system clock is set to %ld ns from the start", (long)offset_ns.load());
      offsets.push_back({Now(), kStart - kSteady + offset_ns});
    }
    if (op == 4) {
      mc::log("fork");
      rec->PrepareForFork();
      if (mc::choose(2, "side")) rec->OnForkedChild();
      else rec->OnForkedParent();
      world.Settle();
    }
    // a span starts now, or started some time ago on either clock
    int given = op == 5 ? 1 + mc::choose(2, "given") : 0;
    int64_t gs = kStart + 1000000005, gt = kSteady - 300000001;
    system_clock::time_point sys;
    steady_clock::time_point st;
    std::tie(sys, st) = ComputeStartTimestamps(*rec, given == 1 ? system_clock::time_point{nanoseconds{gs}} : system_clock::time_point{}, given == 2 ? steady_clock::time_point{nanoseconds{gt}} : steady_clock::time_point{});
    int64_t a = sys.time_since_epoch().count(), b = st.time_since_epoch().count();
    if (given == 1) MC_CHECK(a == gs, "the given system time %ld becomes %ld", (long)gs, (long)a);
    else if (given == 2) MC_CHECK(b == gt, "the given steady time %ld becomes %ld", (long)gt, (long)b);
    else MC_CHECK(b == kSteady + now_ns, "a span that starts at %ld starts at %ld of the steady clock", (long)(kSteady + now_ns), (long)b);
    // the clocks differed by as much at some time within the last period
    bool ok = false;
    for (size_t k = 0; k < offsets.size(); ++k) {
      int64_t to = k + 1 < offsets.size() ? offsets[k + 1].from : INT64_MAX;
      ok |= a - b == offsets[k].value && to >= Now() - kPeriod;
    }
    MC_CHECK(ok, "the clocks are taken to differ by %ld ns, which has not been so for the last %ld us", (long)(a - b), (long)kPeriod);
    mc::state(mc::mix(mc::mix((uint64_t)(a - b), (uint64_t)offset_ns.load()), (uint64_t)(Now() % kPeriod)));
    mc::evaluated();
  }
  mc::outcome(std::to_string(offsets.size()) + " offsets");
  rec.reset();
}

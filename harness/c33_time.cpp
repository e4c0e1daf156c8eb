// mc: variant=asan
// C33: time conversions over every boundary combination, with controlled clocks.
#include <chrono>
#include <cstdint>
#include <tuple>
#include "common/timestamp.h"
#include "common/utility.h"
#include "mc.h"
#include "tracer/utility.h"
using namespace lightstep;
using namespace std::chrono;
namespace {
int64_t steady_ns, system_ns, step_ns;
int steady_reads, system_reads;
}  // namespace
// replaces libstdc++'s clocks
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  ++system_reads;
  int64_t v = system_ns;
  steady_ns += step_ns;
  system_ns += step_ns;
  return time_point{nanoseconds{v}};
}
steady_clock::time_point steady_clock::now() noexcept {
  ++steady_reads;
  int64_t v = steady_ns;
  steady_ns += step_ns;
  system_ns += step_ns;
  return time_point{nanoseconds{v}};
}
}}}
namespace {
const int64_t kSec[] = {0, 1, 59, 86400, 1542580000, 1600000001, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 9223372035ll};
const int64_t kFrac[] = {0, 1, 999, 1000, 1001, 499999999, 500000000, 999999000, 999999998, 999999999};
int64_t Pick(const char* tag) {
  int64_t s = kSec[mc::choose(11, tag)];
  return s * 1000000000 + kFrac[mc::choose(10, tag)];
}
system_clock::time_point Sys(int64_t ns) { return system_clock::time_point{duration_cast<system_clock::duration>(nanoseconds{ns})}; }
steady_clock::time_point Std(int64_t ns) { return steady_clock::time_point{duration_cast<steady_clock::duration>(nanoseconds{ns})}; }
int64_t Ns(system_clock::time_point t) { return duration_cast<nanoseconds>(t.time_since_epoch()).count(); }
int64_t Ns(steady_clock::time_point t) { return duration_cast<nanoseconds>(t.time_since_epoch()).count(); }
}  // namespace
MC_SCENARIO(report_timestamp, 0, 0) {
  int64_t ns = Pick("time");
  uint64_t s;
  uint32_t n;
  std::tie(s, n) = ProtobufFormatTimestamp(Sys(ns));
  MC_CHECK(n < 1000000000u, "%u nanoseconds", n);
  MC_CHECK(s * 1000000000ull + n == (uint64_t)ns, "%ld ns becomes %lu s %u ns", (long)ns, (unsigned long)s, n);
  auto p = ToTimestamp(Sys(ns));
  MC_CHECK(p.nanos() >= 0 && p.nanos() < 1000000000, "%d nanoseconds in the report", p.nanos());
  MC_CHECK(p.seconds() * 1000000000ll + p.nanos() == ns, "%ld ns becomes %ld s %d ns in the report", (long)ns, (long)p.seconds(), p.nanos());
  mc::state(ns);
  mc::evaluated(2);
}
MC_SCENARIO(system_timeval, 0, 0) {
  int64_t ns = Pick("duration");
  int64_t us = ns / 1000;
  ::timeval tv = ToTimeval(microseconds{us});
  MC_CHECK(tv.tv_sec >= 0 && tv.tv_usec >= 0 && tv.tv_usec < 1000000, "%ld us becomes %ld s %ld us", (long)us, (long)tv.tv_sec, (long)tv.tv_usec);
  MC_CHECK(tv.tv_sec * 1000000ll + tv.tv_usec == us, "%ld us becomes %ld s %ld us", (long)us, (long)tv.tv_sec, (long)tv.tv_usec);
  mc::state(us);
  mc::evaluated();
}
// both directions between the clocks, for every offset
MC_SCENARIO(clock_conversion, 0, 0) {
  int64_t t = Pick("time");
  static const int64_t deltas[] = {0, 1, -1, 999999999, 1000000000, -1000000001, 1542580000123456789, -1542580000123456789, 9007199254740993, -9007199254740993};
  int64_t d = deltas[mc::choose(10, "delta")];
  if (t > 4294967296ll * 1000000000) t = 4294967296ll * 1000000000 + 7;  // keep the sums in range
  auto sys = ToSystemTimestamp(d, Std(t));
  MC_CHECK(Ns(sys) == t + d, "steady %ld + %ld becomes system %ld", (long)t, (long)d, (long)Ns(sys));
  auto st = ToSteadyTimestamp(d, Sys(t));
  MC_CHECK(Ns(st) == t - d, "system %ld - %ld becomes steady %ld", (long)t, (long)d, (long)Ns(st));
  MC_CHECK(ToSteadyTimestamp(d, sys) == Std(t) && ToSystemTimestamp(d, st) == Sys(t), "conversion and back is not the identity");
  mc::state(mc::mix(t, d));
  mc::evaluated(3);
}
MC_SCENARIO(clock_offset, 0, 0) {
  step_ns = mc::choose(2, "clocks advance") ? 50 : 0;
  steady_ns = Pick("steady");
  int64_t sys0 = system_ns = Pick("system");
  int64_t st0 = steady_ns;
  int64_t d = ComputeSystemSteadyTimestampDelta();
  // both clocks are read; reading takes up to a few steps
  int64_t e = d - (sys0 - st0);
  MC_CHECK(e >= -4 * step_ns && e <= 4 * step_ns, "offset %ld, the clocks differ by %ld", (long)d, (long)(sys0 - st0));
  mc::evaluated();
}
namespace {
struct FakeRecorder : Recorder {
  int64_t delta;
  void RecordSpan(const collector::Span&) noexcept override {}
  bool FlushWithTimeout(system_clock::duration) noexcept override { return true; }
};
}  // namespace
// the start of a span, given on none, either or both clocks
MC_SCENARIO(span_start, 0, 0) {
  FakeRecorder rec;
  step_ns = 10;
  static const int64_t v[] = {0, 1, 1000000007, 1542580000123456789};
  steady_ns = 5000000000ll + v[mc::choose(3, "steady now")];
  system_ns = v[3] + v[mc::choose(3, "system now")];
  int64_t off = system_ns - steady_ns;
  int given = mc::choose(4, "given");
  int64_t gs = given & 1 ? v[1 + mc::choose(3, "system")] : 0, gt = given & 2 ? v[1 + mc::choose(3, "steady")] : 0;
  int64_t sys0 = system_ns, st0 = steady_ns;
  system_clock::time_point sys;
  steady_clock::time_point st;
  std::tie(sys, st) = ComputeStartTimestamps(rec, given & 1 ? Sys(gs) : system_clock::time_point{}, given & 2 ? Std(gt) : steady_clock::time_point{});
  if (given & 1) MC_CHECK(Ns(sys) == gs, "given system time %ld becomes %ld", (long)gs, (long)Ns(sys));
  if (given & 2) MC_CHECK(Ns(st) == gt, "given steady time %ld becomes %ld", (long)gt, (long)Ns(st));
  auto near = [](int64_t a, int64_t b) { return a - b <= 100 && b - a <= 100; };
  if (given == 0) MC_CHECK(near(Ns(sys), sys0) && near(Ns(st), st0), "start now is system %ld steady %ld, clocks are %ld %ld", (long)Ns(sys), (long)Ns(st), (long)sys0, (long)st0);
  if (given == 1) MC_CHECK(near(Ns(st), gs - off), "start at system %ld becomes steady %ld, expected %ld", (long)gs, (long)Ns(st), (long)(gs - off));
  if (given == 2) MC_CHECK(near(Ns(sys), gt + off), "start at steady %ld becomes system %ld, expected %ld", (long)gt, (long)Ns(sys), (long)(gt + off));
  mc::evaluated();
}

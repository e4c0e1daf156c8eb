// mc: variant=asan
// C10, C13: what flushing and closing a tracer ask of its recorder, over every
// sequence of spans, flushes and closes, results and times the recorder takes.
#include <opentracing/tracer.h>
#include "clocks.h"
#include "entropy.h"
#include "mc.h"
#include "recorder/recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
namespace {
enum Kind { kSpan, kFlush, kShutdown };
struct Call {
  Kind kind;
  int64_t timeout, start, end;
  bool result;
};
std::vector<Call>* calls;
const int64_t kLimit = 10000000000ll;  // what the times are chosen around
int64_t Taken(int64_t timeout) {
  // (a recorder may come back slightly after its time-out)
  const int64_t t[] = {0, timeout, timeout / 2 + 1, timeout > 1 ? timeout - 1 : 0, timeout + 1000};
  return t[mc::choose(5, "time the recorder takes")];
}
struct Mock : Recorder {
  bool Answer(Kind k, std::chrono::system_clock::duration timeout) {
    Call c{k, std::chrono::duration_cast<std::chrono::nanoseconds>(timeout).count(), clocks::steady_ns(), 0, false};
    c.result = !mc::choose(2, "the recorder's answer");
    clocks::Advance(Taken(c.timeout));
    c.end = clocks::steady_ns();
    calls->push_back(c);
    return c.result;
  }
  bool FlushWithTimeout(std::chrono::system_clock::duration t) noexcept override { return Answer(kFlush, t); }
  bool ShutdownWithTimeout(std::chrono::system_clock::duration t) noexcept override { return Answer(kShutdown, t); }
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override { calls->push_back({kSpan, 0, 0, 0, true}); }
  void RecordSpan(const collector::Span&) noexcept override { calls->push_back({kSpan, 0, 0, 0, true}); }
};
}  // namespace
MC_SCENARIO(tracer, 0, 0) {
  if (!entropy::shared_()) entropy::fresh();
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  std::vector<Call> log;
  calls = &log;
  bool legacy = mc::choose(2, "tracer");
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  auto po = MakePropagationOptions(LightStepTracerOptions{});
  std::shared_ptr<LightStepTracer> tracer;
  if (legacy)
    tracer = std::make_shared<LegacyTracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new Mock});
  else
    tracer = std::make_shared<TracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new Mock});
  int64_t standard = -1;  // the time-out of a plain flush
  int steps = mc::thorough() ? 4 : 3;
  for (int i = 0; i < steps; ++i) {
    size_t n = log.size();
    int op = mc::choose(4, "operation");
    int64_t begin = clocks::steady_ns();
    if (op == 0) {
      tracer->StartSpan("s")->Finish();
      MC_CHECK(log.size() == n + 1 && log[n].kind == kSpan, "a finished span is not recorded once");
    } else if (op == 1) {
      bool r = tracer->Flush();
      MC_CHECK(log.size() == n + 1 && log[n].kind == kFlush, "a flush does not flush the recorder once");
      MC_CHECK(r == log[n].result, "a flush answers %d though the recorder answered %d", r, log[n].result);
      MC_CHECK(log[n].timeout > 0, "a flush waits for %ld ns", (long)log[n].timeout);
      MC_CHECK(standard < 0 || log[n].timeout == standard, "a flush waits for %ld ns, the other one %ld ns", (long)log[n].timeout, (long)standard);
      standard = log[n].timeout;
    } else if (op == 2) {
      bool r = false;
      int64_t expect = 0;
      switch (mc::choose(6, "time-out")) {
        case 0: r = tracer->FlushWithTimeout(std::chrono::system_clock::duration{0}); break;
        case 1: r = tracer->FlushWithTimeout(std::chrono::nanoseconds{expect = 123456789012ll}); break;
        case 2: r = tracer->FlushWithTimeout(std::chrono::microseconds{1}), expect = 1000; break;
        case 3: r = tracer->FlushWithTimeout(std::chrono::hours{24 * 365}), expect = 24ll * 365 * 3600 * 1000000000; break;
        case 4: r = tracer->FlushWithTimeout(std::chrono::duration<double>{0.5}), expect = 500000000; break;
        case 5: r = tracer->FlushWithTimeout(std::chrono::duration<int, std::ratio<60>>{3}), expect = 180000000000ll; break;
      }
      MC_CHECK(log.size() == n + 1 && log[n].kind == kFlush, "a flush with time-out does not flush the recorder once");
      MC_CHECK(log[n].timeout == expect, "a flush with a time-out of %ld ns waits for %ld ns", (long)expect, (long)log[n].timeout);
      MC_CHECK(r == log[n].result, "a flush with time-out answers %d though the recorder answered %d", r, log[n].result);
    } else {
      tracer->Close();
      MC_CHECK(log.size() > n && log[n].kind == kFlush, "closing does not flush first");
      MC_CHECK(log[n].timeout > 0 && (standard < 0 || log[n].timeout == standard), "closing waits for %ld ns for the flush", (long)log[n].timeout);
      standard = log[n].timeout;
      int64_t left = standard - (log[n].end - begin);
      if (!log[n].result) {
        MC_CHECK(log.size() == n + 1, "closing goes on though the flush failed");
      } else if (left <= 0) {
        MC_CHECK(log.size() == n + 1, "closing goes on though its time is over");
      } else if (!legacy) {
        MC_CHECK(log.size() == n + 2 && log[n + 1].kind == kShutdown, "closing does not close the connections after the flush");
        MC_CHECK(log[n + 1].timeout == left, "closing waits %ld ns for the connections when %ld ns are left", (long)log[n + 1].timeout, (long)left);
      }
    }
    for (size_t k = n; k < log.size(); ++k) {
      int64_t v[] = {log[k].kind, log[k].timeout, log[k].end - log[k].start, log[k].result};
      mc::state(mc::hash(v, sizeof v));
    }
    mc::evaluated(3);
  }
}

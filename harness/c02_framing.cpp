// mc: variant=asan skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp
// C02/C03: what the streaming recorder makes of finished spans: every size of
// a span, and spans of the tracer, read back from the stream of a connection.
#include <algorithm>
#include "idle_recorder.h"
#include "clocks.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/span_stream.h"
#include "spans.h"
#include "streams.h"
#include "wire_oracle.h"
using namespace lightstep;
namespace {
struct Counts : MetricsObserver {
  long sent = 0, dropped = 0;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
struct World : idle::World {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  Counts* counts = new Counts;
  StreamRecorder* rec;
  std::unique_ptr<Recorder> own;
  std::string wire;
  explicit World(int capacity) {
    logger.set_level(LogLevel::off);
    auto t = TracerOptions();
    t.max_buffered_spans = (size_t)capacity;
    t.metrics_observer.reset(counts);
    own.reset(rec = new StreamRecorder{logger, std::move(t), Options()});
    Settle();
  }
  // everything in the buffer, as one connection sends it
  std::vector<std::string> Drain() {
    std::string host = "Host:h\r\n", common;
    SpanStream spans{rec->span_buffer(), rec->metrics()};
    ConnectionStream c{Fragment{&host[0], (int)host.size()}, Fragment{nullptr, 0}, spans};
    c.Flush([&](std::initializer_list<FragmentInputStream*> streams) {
      for (auto s : streams) {
        int n = 0;
        s->ForEachFragment([&](void* p, int size) {
          ++n;
          wire.append((const char*)p, (size_t)size);
          return true;
        });
        MC_CHECK(n == s->num_fragments(), "%d fragments announced, %d shown", s->num_fragments(), n);
        s->Clear();
      }
      return true;
    });
    auto r = ReadWire(wire, "connection");
    MC_CHECK(r.head_complete && !r.in_chunk && !r.terminated, "the stream does not end with a whole span");
    MC_CHECK(!r.chunks.empty(), "no header");
    return {r.chunks.begin() + 1, r.chunks.end()};
  }
};
std::string Varint(size_t n) {
  std::string s;
  do s += (char)(n % 128 | (n >= 128 ? 128 : 0)), n /= 128;
  while (n);
  return s;
}
const int kSizes[] = {0, 1, 2, 3, 12, 13, 14, 15, 16, 126, 127, 128, 129, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257,
                      490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 511, 512, 513, 767, 768, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 1048570, 1048575, 1048576, 2097150, 2097151, 2097152};
const int kNumSizes = sizeof kSizes / sizeof *kSizes;
}  // namespace
// spans of every size, alone and after another
MC_SCENARIO(sizes, 0, 0) {
  int first = kSizes[mc::choose(kNumSizes, "size")];
  int second = mc::choose(3, "another") - 1;
  const int others[] = {0, 300};
  World w{4};
  std::vector<std::string> want;
  for (int k : {first, second < 0 ? -1 : others[second]}) {
    if (k < 0) continue;
    std::unique_ptr<ChainedStream> s{new ChainedStream{}};
    Fragment header = w.rec->ReserveHeaderSpace(*s);
    std::string body = Pattern((size_t)k, 5);
    {
      google::protobuf::io::CodedOutputStream c{s.get()};
      c.WriteRaw(body.data(), k);
      w.rec->WriteFooter(c);
    }
    w.rec->RecordSpan(header, std::move(s));
    want.push_back("\x1a" + Varint((size_t)k) + body);
  }
  auto got = w.Drain();
  MC_CHECK(got.size() == want.size(), "%zu spans sent, %zu recorded", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == want[i], "span %zu of %zu bytes is sent as %zu bytes (or others)", i, want[i].size(), got[i].size());
  MC_CHECK(w.counts->sent == (long)want.size() && w.counts->dropped == 0, "%ld spans counted as sent, %ld as dropped", w.counts->sent, w.counts->dropped);
  mc::state((uint64_t)first);
  mc::evaluated();
}
// spans of the tracer with a tag of every length, the buffer being too small for some
MC_SCENARIO(tracer, 0, 0) {
  int length = mc::thorough() ? mc::choose(1100, "length") : mc::choose(600, "length");
  int count = 1 + mc::choose(4, "spans"), capacity = 1 + mc::choose(3, "capacity");
  if (count > 1 && length % 16 != 3 && !mc::thorough()) return;
  World w{capacity};
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  logger->set_level(LogLevel::off);
  std::shared_ptr<LightStepTracer> tracer = std::make_shared<TracerImpl>(logger, MakePropagationOptions(LightStepTracerOptions{}), std::move(w.own));
  std::string value((size_t)length, 'v');
  std::vector<std::string> names;
  for (int i = 0; i < count; ++i) {
    auto s = tracer->StartSpan("span" + std::to_string(i));
    s->SetTag("tag", value);
    s->Finish();
    if (i < capacity) names.push_back("span" + std::to_string(i));
  }
  auto got = w.Drain();
  MC_CHECK(got.size() == names.size(), "%zu spans sent of %d, %d may wait", got.size(), count, capacity);
  MC_CHECK(w.counts->sent == (long)names.size() && w.counts->dropped == count - (long)names.size(), "%ld spans counted as sent, %ld as dropped", w.counts->sent, w.counts->dropped);
  for (size_t i = 0; i < got.size(); ++i) {
    auto r = wire::ReadReport(got[i]);
    MC_CHECK(r.spans.size() == 1, "%zu spans in a chunk", r.spans.size());
    auto& s = r.spans[0];
    MC_CHECK(s.name == names[i], "\"%s\" sent, expected \"%s\"", s.name.c_str(), names[i].c_str());
    MC_CHECK(s.tags.size() == 1, "%zu tags", s.tags.size());
    wire::CheckKV(s.tags[0], "tag", opentracing::Value{value}, "tag");
  }
  mc::state((uint64_t)length * 100 + (uint64_t)count * 10 + (uint64_t)capacity);
  mc::outcome(std::to_string(got.size()) + " of " + std::to_string(count));
  mc::evaluated();
}

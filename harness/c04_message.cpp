// mc: variant=asan
// C04: an announced count decodes to the number it was set to.
#include <climits>
#include <string>
#include <vector>
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "mc.h"
#include "recorder/metrics_tracker.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/span_stream.h"
#include "streams.h"
#include "wire_oracle.h"
using namespace lightstep;
namespace {
long Announced(const collector::ReportRequest& r, bool& present) {
  long n = 0;
  present = false;
  for (auto& c : r.internal_metrics().counts()) {
    MC_CHECK(c.name() == "spans.dropped", "unexpected metric \"%s\"", c.name().c_str());
    MC_CHECK(!present, "the count is announced twice");
    MC_CHECK(c.value_case() == collector::MetricsSample::kIntValue, "the count is not an integer (case %d)", (int)c.value_case());
    present = true;
    n = (long)c.int_value();
  }
  MC_CHECK(r.internal_metrics().gauges_size() == 0 && r.internal_metrics().logs_size() == 0, "unexpected metrics");
  return n;
}
std::vector<int> Values() {
  std::vector<int> v;
  auto add = [&](long x) {
    if (x >= 0 && x <= INT_MAX) v.push_back((int)x);
  };
  for (int i = 0; i < 300; ++i) add(i);
  for (int b = 8; b <= 31; ++b)
    for (long d = -2; d <= 2; ++d) add((1l << b) + d);
  for (long p = 10; p <= 1000000000; p *= 10) { add(p); add(p - 1); }
  return v;
}
void CheckFragment(EmbeddedMetricsMessage& m, int v) {
  m.set_num_dropped_spans(v);
  MC_CHECK(m.num_dropped_spans() == v, "set to %d, reads %d", v, m.num_dropped_spans());
  auto f = m.MakeFragment();
  MC_CHECK(f.first && f.second > 0, "empty fragment for %d", v);
  std::string bytes((char*)f.first, f.second);
  collector::ReportRequest r;
  MC_CHECK(r.ParseFromString(bytes), "the announcement of %d does not parse", v);
  MC_CHECK(r.spans_size() == 0 && !r.has_reporter() && !r.has_auth(), "the announcement holds more than metrics");
  bool present;
  long n = Announced(r, present);
  MC_CHECK(present ? n == v : v == 0, "announcement of %d decodes to %ld", v, n);
  MC_CHECK(r.has_internal_metrics(), "no metrics message");
  MC_CHECK(m.num_dropped_spans() == v, "count changed by serializing");
}
struct Observer : MetricsObserver {};
}  // namespace
MC_SCENARIO(every_value, 0, 0) {
  EmbeddedMetricsMessage m;
  MC_CHECK(m.num_dropped_spans() == 0, "a new message announces %d", m.num_dropped_spans());
  for (int v : Values()) {
    CheckFragment(m, v);
    EmbeddedMetricsMessage fresh;
    CheckFragment(fresh, v);
    mc::state(v);
    mc::evaluated(2);
  }
}
// one message reused for several announcements of different sizes
MC_SCENARIO(reuse, 0, 0) {
  static const int vs[] = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, INT_MAX};
  EmbeddedMetricsMessage m;
  for (int i = 0, n = mc::thorough() ? 4 : 3; i < n; ++i) CheckFragment(m, vs[mc::choose(11, "value")]);
  mc::evaluated();
}
// the whole connection header: framing stays right for every value, and a reset gives an unsent one back
MC_SCENARIO(header, 0, 0) {
  static const int vs[] = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, INT_MAX};
  Observer obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buf{1};
  SpanStream spans{buf, metrics};
  std::string host = "Host:h\r\n";
  collector::ReportRequest h;
  h.mutable_reporter()->set_reporter_id(1);
  static const int pad[] = {0, 100, 240, 4000, 65500};
  h.mutable_auth()->set_access_token(std::string(pad[mc::choose(5, "header size")], 'x'));
  std::string common = h.SerializeAsString();
  int v = vs[mc::choose(11, "value")];
  metrics.OnSpansDropped(v);
  ConnectionStream c{Fragment{&host[0], (int)host.size()}, Fragment{&common[0], (int)common.size()}, spans};
  MC_CHECK(metrics.num_dropped_spans() == 0, "announced count still pending");
  // write a prefix, reset, and write the header on the next connection
  std::string w0, w1;
  int cut = mc::choose(4, "prefix");
  int total = 0;
  auto writer = [&](std::string& out, int limit) {
    return [&out, limit, &total](std::initializer_list<FragmentInputStream*> ss) {
      std::string all;
      for (auto s : ss) all += Content(*s);
      total = (int)all.size();
      int n = limit < 0 ? total + limit + 1 : std::min(limit, total);
      out += all.substr(0, n);
      return Consume(ss, n);
    };
  };
  auto wr0 = writer(w0, cut == 0 ? 0 : cut == 1 ? 1 : cut == 2 ? -2 : -1);
  bool done = c.Flush(wr0);
  MC_CHECK(done == (cut == 3), "flush result");
  MC_CHECK(c.first_chunk_position() > 0, "first chunk position");
  int later = mc::choose(3, "more drops");
  if (later) metrics.OnSpansDropped(v == INT_MAX ? 0 : later);
  int extra = later && v != INT_MAX ? later : 0;
  c.Reset();
  auto wr1 = writer(w1, -1);
  MC_CHECK(c.Flush(wr1), "flush result");
  auto r = ReadWire(w1, "second connection");
  MC_CHECK(r.head_complete && r.chunks.size() == 1 && !r.in_chunk && !r.terminated, "the header is not exactly one chunk");
  collector::ReportRequest rr;
  MC_CHECK(rr.ParseFromString(r.chunks[0]), "the header does not parse");
  MC_CHECK((int)w1.find(common) > c.first_chunk_position(), "header before the first chunk position");
  bool present;
  long n = Announced(rr, present);
  long expect = (cut == 3 ? 0 : v) + extra;
  MC_CHECK(n == expect, "announces %ld dropped spans, %ld are due", n, expect);
  MC_CHECK(metrics.num_dropped_spans() == 0, "count still pending");
  mc::outcome(std::to_string(n));
  mc::evaluated();
}

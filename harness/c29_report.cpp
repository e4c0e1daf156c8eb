// mc: variant=asan
// C29: report requests: counts, sizes, fragments and copies over all small shapes.
#include "common/report_request_framing.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/buffer_chain.h"
#include "recorder/serialization/report_request.h"
#include "streams.h"
using namespace lightstep;
namespace {
std::string MetricsBytes(int dropped) {
  collector::ReportRequest r;
  auto* c = r.mutable_internal_metrics()->add_counts();
  c->set_name("spans.dropped");
  c->set_int_value(dropped);
  return r.SerializeAsString();
}
std::string SpanFrame(int target, unsigned seed) {
  // a serialized span field of about `target` bytes
  collector::ReportRequest r;
  auto* s = r.add_spans();
  s->mutable_span_context()->set_trace_id(seed + 1);
  std::string out;
  for (int n = 0; (int)(out = r.SerializeAsString()).size() < target; ++n) s->mutable_operation_name()->push_back((char)('a' + n % 26));
  return out;
}
void CheckReport(const ReportRequest& r, const std::string& header, int dropped, const std::vector<std::string>& spans) {
  std::string want = header + (dropped ? MetricsBytes(dropped) : "");
  for (auto& s : spans) want += s;
  MC_CHECK(r.num_dropped_spans() == dropped, "num_dropped_spans %d, expected %d", r.num_dropped_spans(), dropped);
  MC_CHECK(r.num_spans() == (int)spans.size(), "num_spans %d, expected %zu", r.num_spans(), spans.size());
  MC_CHECK(r.num_bytes() == want.size(), "num_bytes %zu, expected %zu", r.num_bytes(), want.size());
  const BufferChain& chain = r;
  std::vector<std::string> f;
  bool done = chain.ForEachFragment([](void* c, const void* d, size_t n) {
    static_cast<std::vector<std::string>*>(c)->emplace_back((const char*)d, n);
    return true; }, &f);
  MC_CHECK(done, "uninterrupted iteration reports an interruption");
  MC_CHECK(Join(f) == want, "fragments do not concatenate to the report");
  MC_CHECK(chain.num_fragments() == f.size(), "num_fragments %zu, %zu are shown", chain.num_fragments(), f.size());
  for (size_t k = 0; k < f.size(); ++k) {
    std::pair<size_t, size_t> c{0, k};
    bool d = chain.ForEachFragment([](void* x, const void*, size_t) {
      auto& p = *static_cast<std::pair<size_t, size_t>*>(x);
      return p.first++ != p.second; }, &c);
    MC_CHECK(!d && c.first == k + 1, "interruption at fragment %zu of %zu: returned %d after %zu", k, f.size(), d, c.first);
  }
  for (size_t extra : {0, 1, 64}) {
    std::unique_ptr<char[]> b{new char[want.size() + extra]};
    memset(b.get(), '~', want.size() + extra);
    chain.CopyOut(b.get(), want.size() + extra);
    MC_CHECK(memcmp(b.get(), want.data(), want.size()) == 0, "CopyOut differs");
    for (size_t i = 0; i < extra; ++i) MC_CHECK(b[want.size() + i] == '~', "CopyOut wrote past the report");
  }
  mc::evaluated();
}
const int kSizes[] = {2, 100, 255, 256, 257, 512, 513, 1300};
}  // namespace
MC_SCENARIO(shapes, 0, 0) {
  collector::ReportRequest hp;
  int hs = mc::choose(3, "header");
  if (hs) hp.mutable_reporter()->set_reporter_id(123);
  for (int i = 0; i < (hs == 2 ? 40 : 0); ++i) hp.mutable_reporter()->add_tags()->set_key("key" + std::to_string(i));
  auto header = std::make_shared<const std::string>(hp.SerializeAsString());
  static const int drops[] = {0, 1, 127, 128, 16383, 16384, 2097152, 268435455, 0x7fffffff};
  int dropped = drops[mc::choose(9, "dropped")];
  bool moved = mc::choose(2, "moved");
  ReportRequest r{header, dropped};
  if (moved) { ReportRequest t{header, 5}; t = std::move(r); r = std::move(t); }
  std::vector<std::string> spans;
  CheckReport(r, *header, dropped, spans);
  int n = mc::choose(mc::thorough() ? 5 : 4, "spans");
  for (int i = 0; i < n; ++i) {
    std::string s = SpanFrame(kSizes[i < 2 ? mc::choose(8, "size") : (i * 3) % 8], i);
    spans.push_back(s);
    r.AddSpan(MakeChained(s));
    CheckReport(r, *header, dropped, spans);
  }
  collector::ReportRequest back;
  std::string all(r.num_bytes(), 0);
  r.CopyOut(&all[0], all.size());
  MC_CHECK(back.ParseFromString(all), "the report does not parse");
  MC_CHECK(back.spans_size() == n, "%d spans decoded", back.spans_size());
  for (int i = 0; i < n; ++i) MC_CHECK(back.spans(i).span_context().trace_id() == (uint64_t)i + 1, "span order");
  MC_CHECK(back.reporter().SerializeAsString() == hp.reporter().SerializeAsString(), "header differs");
  MC_CHECK((back.internal_metrics().counts_size() ? back.internal_metrics().counts(0).int_value() : 0) == dropped, "decoded drop count");
  mc::state(mc::hash(all));
}

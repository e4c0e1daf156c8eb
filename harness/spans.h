// Tracers of both implementations over manual recorders whose reports are
// captured and read by the independent wire reader.
#pragma once
#include <opentracing/tracer.h>
#include <memory>
#include "common/logger.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/lightstep_span_context.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
#include "wire.h"
namespace spans {
using namespace lightstep;
typedef std::vector<std::string> Reports;
struct Capture : AsyncTransporter {
  Reports& out;
  explicit Capture(Reports& o) : out(o) {}
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    std::string s(m->num_bytes(), 0);
    m->CopyOut(&s[0], s.size());
    out.push_back(s);
    cb.OnSuccess(*m);
  }
};
struct LegacyCapture : LegacyAsyncTransporter {
  Reports& out;
  explicit LegacyCapture(Reports& o) : out(o) {}
  void Send(const google::protobuf::Message& m, google::protobuf::Message&, Callback& cb) override {
    out.push_back(m.SerializeAsString());
    cb.OnSuccess();
  }
};
struct World {
  Reports reports;
  std::shared_ptr<Logger> logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  std::shared_ptr<LightStepTracer> tracer;
  bool legacy;
  World(bool legacy_, PropagationOptions po = MakePropagationOptions(LightStepTracerOptions{}), LightStepTracerOptions o = LightStepTracerOptions{}) : legacy(legacy_) {
    if (legacy)
      tracer = std::make_shared<LegacyTracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new LegacyManualRecorder{
          *logger, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{new LegacyCapture{reports}}}});
    else
      tracer = std::make_shared<TracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new ManualRecorder{
          *logger, std::move(o), std::unique_ptr<AsyncTransporter>{new Capture{reports}}}});
  }
  // All spans reported so far, in order.
  std::vector<wire::Span> Spans() {
    MC_CHECK(tracer->Flush(), "flush failed");
    std::vector<wire::Span> r;
    for (auto& b : reports)
      for (auto& s : wire::ReadReport(b).spans) r.push_back(s);
    return r;
  }
};
inline std::unique_ptr<opentracing::Span> Child(LightStepTracer& t, const char* name, const opentracing::SpanContext* c) {
  opentracing::StartSpanOptions o;
  o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, c);
  return t.StartSpanWithOptions(name, o);
}
inline const LightStepSpanContext& Ctx(const opentracing::SpanContext& c) { return dynamic_cast<const LightStepSpanContext&>(c); }
typedef std::pair<std::string, opentracing::Value> Tag;
struct Expect {
  std::string name;
  uint64_t trace = 0, span = 0;
  std::map<std::string, std::string> baggage;
  struct R { bool child; uint64_t trace, span; };
  std::vector<R> refs;
  int64_t start_ns = 0;
  uint64_t micros = 0;
  std::vector<Tag> tags;
  struct L { int64_t ns; std::vector<Tag> fields; };
  std::vector<L> logs;
};
inline void CheckTime(const wire::Time& t, int64_t ns, const char* what) {
  MC_CHECK(t.s == ns / 1000000000 && t.n == ns % 1000000000, "%s reported as %lld s %lld ns, expected %lld ns", what, (long long)t.s, (long long)t.n, (long long)ns);
}
inline void Check(const wire::Span& s, const Expect& e) {
  MC_CHECK(s.name == e.name, "operation name \"%s\", expected \"%s\"", s.name.c_str(), e.name.c_str());
  MC_CHECK(s.c.trace == e.trace && s.c.span == e.span, "ids %llx/%llx reported, expected %llx/%llx", (unsigned long long)s.c.trace, (unsigned long long)s.c.span, (unsigned long long)e.trace, (unsigned long long)e.span);
  MC_CHECK(s.c.baggage.size() == e.baggage.size(), "%zu baggage items reported, expected %zu", s.c.baggage.size(), e.baggage.size());
  for (auto& b : e.baggage) {
    auto it = s.c.baggage.find(b.first);
    MC_CHECK(it != s.c.baggage.end(), "baggage \"%s\" missing from the report", b.first.c_str());
    MC_CHECK(it->second == b.second, "baggage \"%s\" reported as \"%s\", expected \"%s\"", b.first.c_str(), it->second.c_str(), b.second.c_str());
  }
  MC_CHECK(s.refs.size() == e.refs.size(), "%zu references reported, expected %zu", s.refs.size(), e.refs.size());
  for (size_t i = 0; i < e.refs.size(); ++i) {
    auto& r = s.refs[i];
    MC_CHECK(r.kind == (e.refs[i].child ? 0 : 1), "reference %zu has relationship %d", i, r.kind);
    MC_CHECK(r.c.trace == e.refs[i].trace && r.c.span == e.refs[i].span, "reference %zu names %llx/%llx, expected %llx/%llx", i, (unsigned long long)r.c.trace, (unsigned long long)r.c.span, (unsigned long long)e.refs[i].trace, (unsigned long long)e.refs[i].span);
  }
  CheckTime(s.start, e.start_ns, "start time");
  MC_CHECK(s.micros == e.micros, "duration %llu us, expected %llu", (unsigned long long)s.micros, (unsigned long long)e.micros);
  MC_CHECK(s.tags.size() == e.tags.size(), "%zu tags reported, expected %zu", s.tags.size(), e.tags.size());
  for (size_t i = 0; i < e.tags.size(); ++i) wire::CheckKV(s.tags[i], e.tags[i].first, e.tags[i].second, "tag");
  MC_CHECK(s.logs.size() == e.logs.size(), "%zu log records reported, expected %zu", s.logs.size(), e.logs.size());
  for (size_t i = 0; i < e.logs.size(); ++i) {
    CheckTime(s.logs[i].t, e.logs[i].ns, "log time");
    MC_CHECK(s.logs[i].fields.size() == e.logs[i].fields.size(), "log record %zu has %zu fields, expected %zu", i, s.logs[i].fields.size(), e.logs[i].fields.size());
    for (size_t k = 0; k < e.logs[i].fields.size(); ++k) wire::CheckKV(s.logs[i].fields[k], e.logs[i].fields[k].first, e.logs[i].fields[k].second, "log field");
  }
}
}  // namespace spans

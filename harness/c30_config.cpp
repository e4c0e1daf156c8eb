// mc: variant=asan wrap=readlink extra=src/tracer/tracer.cpp,src/tracer/dynamic_load.cpp,src/tracer/lightstep_tracer_factory.cpp,src/tracer/json_options.cpp skip=src/recorder/no_grpc_transporter.cpp,src/recorder/stream_recorder/stream_recorder.cpp
// C30: tracers from options and from JSON text: every combination of settings,
// every single-byte corruption of a configuration.
#include <google/protobuf/util/json_util.h>
#include <opentracing/dynamic_load.h>
#include <unistd.h>
#include <atomic>
#include <mutex>
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep-tracer-configuration/tracer_configuration.pb.h"
#include "lightstep/version.h"
#include "mc.h"
#include "recorder/grpc_transporter.h"
#include "recorder/stream_recorder.h"
#include "tracer/json_options.h"
#include "tracer/lightstep_tracer_factory.h"
#include "wire.h"
using namespace lightstep;
namespace {
const char* g_exe = "/opt/some/program";
int g_exe_errno = 0;
}  // namespace
extern "C" ssize_t __wrap_readlink(const char* path, char* b, size_t n) {
  if (g_exe_errno) { errno = g_exe_errno; return -1; }
  size_t l = std::min(strlen(g_exe), n);
  memcpy(b, g_exe, l);
  return (ssize_t)l;
}
namespace {
typedef std::vector<std::pair<int, std::string>> Logged;
// What the fakes and the transporters saw.
struct Seen {
  std::mutex m;
  Logged log;
  int transporters = 0, observers = 0;
  int stream_made = 0, grpc_made = 0, stream_live = 0, stream_spans = 0;
  LogLevel level = LogLevel::off;
  LightStepTracerOptions given;  // to the stream recorder or the default transport
  std::vector<std::string> reports;
  int sync_sends = 0, async_sends = 0, legacy_sends = 0, observed = 0;
  bool fail_make = false;
};
Seen* seen = nullptr;
struct Counted { Counted() { ++seen->transporters; } ~Counted() { --seen->transporters; } };
struct Sync : SyncTransporter, Counted {
  opentracing::expected<void> Send(const google::protobuf::Message& q, google::protobuf::Message&) override {
    std::lock_guard<std::mutex> g{seen->m};
    ++seen->sync_sends;
    seen->reports.push_back(q.SerializeAsString());
    return {};
  }
};
struct Async : AsyncTransporter, Counted {
  void Send(std::unique_ptr<BufferChain>&& b, Callback& cb) noexcept override {
    ++seen->async_sends;
    std::string s(b->num_bytes(), 0);
    b->CopyOut(&s[0], s.size());
    seen->reports.push_back(s);
    cb.OnSuccess(*b);
  }
};
struct Legacy : LegacyAsyncTransporter, Counted {
  void Send(const google::protobuf::Message& q, google::protobuf::Message&, Callback& cb) override {
    ++seen->legacy_sends;
    seen->reports.push_back(q.SerializeAsString());
    cb.OnSuccess();
  }
};
struct Bare : Transporter, Counted {};
struct Observer : MetricsObserver {
  Observer() { ++seen->observers; }
  ~Observer() override { --seen->observers; }
  void OnFlush() noexcept override { std::lock_guard<std::mutex> g{seen->m}; ++seen->observed; }
};
struct StubStream : Recorder {
  LightStepTracerOptions options;
  explicit StubStream(LightStepTracerOptions&& o) : options(std::move(o)) { ++seen->stream_live; }
  ~StubStream() override { --seen->stream_live; }
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override { ++seen->stream_spans; }
};
// everything that can be copied
void Keep(const LightStepTracerOptions& o) {
  auto& g = seen->given;
  g.component_name = o.component_name; g.access_token = o.access_token; g.propagation_modes = o.propagation_modes;
  g.collector_host = o.collector_host; g.collector_port = o.collector_port; g.satellite_endpoints = o.satellite_endpoints;
  g.collector_plaintext = o.collector_plaintext; g.tags = o.tags; g.verbose = o.verbose; g.use_single_key_propagation = o.use_single_key_propagation;
  g.ssl_root_certificates = o.ssl_root_certificates; g.max_buffered_spans = o.max_buffered_spans; g.use_thread = o.use_thread;
  g.use_stream_recorder = o.use_stream_recorder; g.reporting_period = o.reporting_period; g.report_timeout = o.report_timeout;
}
struct Failure : std::runtime_error { Failure() : std::runtime_error("no such recorder") {} };
}  // namespace
namespace lightstep {
std::unique_ptr<SyncTransporter> MakeGrpcTransporter(Logger& l, const LightStepTracerOptions& o) {
  ++seen->grpc_made;
  seen->level = l.level();
  Keep(o);
  if (seen->fail_make) throw Failure{};
  return std::unique_ptr<SyncTransporter>{new Sync};
}
std::unique_ptr<Recorder> MakeStreamRecorder(Logger& l, LightStepTracerOptions&& o) {
  ++seen->stream_made;
  seen->level = l.level();
  Keep(o);
  if (seen->fail_make) throw Failure{};
  return std::unique_ptr<Recorder>{new StubStream{std::move(o)}};
}
}  // namespace lightstep
namespace {
struct Text : opentracing::TextMapWriter {
  mutable std::map<std::string, std::string> m;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    std::string low = k;
    for (auto& c : low) c = (char)tolower(c);  // header names
    m[low] = v;
    return {};
  }
};
// The formats in which the tracer writes contexts.
std::vector<PropagationMode> Written(LightStepTracer& t) {
  auto c = t.MakeSpanContext(0x1111, 0x2222, true, {});
  MC_CHECK(c, "MakeSpanContext failed");
  Text w;
  MC_CHECK(t.Inject(**c, w), "Inject failed");
  std::vector<PropagationMode> r;
  for (auto& e : w.m) mc::log("writes %s: %s", e.first.c_str(), e.second.c_str());
  if (w.m.count("ot-tracer-traceid")) r.push_back(PropagationMode::lightstep);
  if (w.m.count("x-b3-traceid")) r.push_back(PropagationMode::b3);
  if (w.m.count("x-ot-span-context")) r.push_back(PropagationMode::envoy);
  if (w.m.count("traceparent")) r.push_back(PropagationMode::trace_context);
  if (w.m.count("x-cloud-trace-context")) r.push_back(PropagationMode::cloud_trace);
  return r;
}
std::vector<PropagationMode> Formats(const LightStepTracerOptions& o) {
  auto v = o.propagation_modes;
  if (o.use_single_key_propagation) v = {PropagationMode::envoy};
  if (v.empty()) v = {PropagationMode::lightstep};
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
struct Shower {
  std::string operator()(bool x) { return x ? "b:1" : "b:0"; }
  std::string operator()(double x) { return "d:" + std::to_string(x); }
  std::string operator()(int64_t x) { return "i:" + std::to_string(x); }
  std::string operator()(uint64_t x) { return "i:" + std::to_string((int64_t)x); }
  std::string operator()(const std::string& x) { return "s:" + x; }
  std::string operator()(const char* x) { return std::string("s:") + x; }
  std::string operator()(std::nullptr_t) { return "null"; }
  std::string operator()(const opentracing::Values&) { return "list"; }
  std::string operator()(const opentracing::Dictionary&) { return "map"; }
};
std::string Show(const opentracing::Value& v) { return apply_visitor(Shower{}, v); }
std::string ShowKV(const wire::KV& k) {
  switch (k.kind) {
    case 2: return "s:" + k.s;
    case 3: return "i:" + std::to_string(k.i);
    case 4: return "d:" + std::to_string(k.d);
    case 5: return k.b ? "b:1" : "b:0";
    default: return "?";
  }
}
typedef std::map<std::string, std::string> Tags;
// The tags that belong on the process. A component tag among the user's own
// tags is left aside: which of the two wins is not promised.
Tags WantTags(const std::unordered_map<std::string, opentracing::Value>& user, const std::string& component, const std::string& program) {
  Tags t;
  for (auto& u : user) t[u.first] = Show(u.second);
  t["lightstep.tracer_platform"] = "s:c++";
  t["lightstep.tracer_platform_version"] = "i:" + std::to_string((int64_t)__cplusplus);
  t["lightstep.tracer_version"] = "s:" LIGHTSTEP_VERSION;
  t["lightstep.opentracing_version"] = "s:" OPENTRACING_VERSION;
  t["lightstep.component_name"] = "s:" + (component.empty() ? program : component);
  return t;
}
void CheckTags(const Tags& got, const Tags& want) {
  for (auto& w : want) {
    auto i = got.find(w.first);
    MC_CHECK(i != got.end(), "tag %s is missing", w.first.c_str());
    if (w.first == "lightstep.tracer_platform_version") continue;  // of the library's compiler run
    MC_CHECK(i->second == w.second, "tag %s is %s, expected %s", w.first.c_str(), i->second.c_str(), w.second.c_str());
  }
  MC_CHECK(got.size() == want.size(), "%zu tags, expected %zu", got.size(), want.size());
}
void CheckSame(const LightStepTracerOptions& g, const LightStepTracerOptions& w) {
  MC_CHECK(g.component_name == w.component_name, "component_name \"%s\"", g.component_name.c_str());
  MC_CHECK(g.access_token == w.access_token, "access_token \"%s\"", g.access_token.c_str());
  MC_CHECK(g.propagation_modes == w.propagation_modes, "propagation_modes differ");
  MC_CHECK(g.collector_host == w.collector_host, "collector_host \"%s\"", g.collector_host.c_str());
  MC_CHECK(g.collector_port == w.collector_port, "collector_port %u", g.collector_port);
  MC_CHECK(g.collector_plaintext == w.collector_plaintext, "collector_plaintext %d", g.collector_plaintext);
  MC_CHECK(g.satellite_endpoints == w.satellite_endpoints, "%zu satellite endpoints, expected %zu (or they differ)", g.satellite_endpoints.size(), w.satellite_endpoints.size());
  MC_CHECK(g.verbose == w.verbose, "verbose %d", g.verbose);
  MC_CHECK(g.use_single_key_propagation == w.use_single_key_propagation, "use_single_key_propagation %d", g.use_single_key_propagation);
  MC_CHECK(g.ssl_root_certificates == w.ssl_root_certificates, "ssl_root_certificates \"%s\", expected \"%s\"", g.ssl_root_certificates.c_str(), w.ssl_root_certificates.c_str());
  MC_CHECK(g.max_buffered_spans.value() == w.max_buffered_spans.value(), "max_buffered_spans %zu", g.max_buffered_spans.value());
  MC_CHECK(g.use_thread == w.use_thread, "use_thread %d", g.use_thread);
  MC_CHECK(g.use_stream_recorder == w.use_stream_recorder, "use_stream_recorder %d", g.use_stream_recorder);
  MC_CHECK(g.reporting_period == w.reporting_period, "reporting_period %lld ns, expected %lld", (long long)g.reporting_period.count(), (long long)w.reporting_period.count());
  MC_CHECK(g.report_timeout == w.report_timeout, "report_timeout %lld ns, expected %lld", (long long)g.report_timeout.count(), (long long)w.report_timeout.count());
}
void Copy(LightStepTracerOptions& t, const LightStepTracerOptions& o) {
  Seen* old = seen;
  Seen tmp;
  seen = &tmp;
  Keep(o);
  seen = old;
  t = std::move(tmp.given);
}
enum Kind { kNone, kSync, kAsync, kLegacy, kBare, kKinds };
}  // namespace

// Tracers made from options.
MC_SCENARIO(options, 0, 0) {
  Seen s;
  seen = &s;
  LightStepTracerOptions o, want;
  Kind kind = (Kind)mc::choose(kKinds, "transporter");
  o.use_thread = mc::choose(2, "no thread") == 0;
  o.use_stream_recorder = mc::choose(2, "stream");
  o.collector_plaintext = mc::choose(2, "plaintext");
  o.use_single_key_propagation = mc::choose(2, "single key");
  o.verbose = mc::choose(2, "verbose");
  switch (mc::choose(mc::thorough() ? 7 : 4, "modes")) {
    case 1: o.propagation_modes = {PropagationMode::b3}; break;
    case 2: o.propagation_modes = {PropagationMode::trace_context, PropagationMode::lightstep}; break;
    case 3: o.propagation_modes = {PropagationMode::cloud_trace, PropagationMode::envoy}; break;
    case 4: o.propagation_modes = {PropagationMode::envoy}; break;
    case 5: o.propagation_modes = {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace}; break;
    case 6: o.propagation_modes = {PropagationMode::b3, PropagationMode::b3}; break;
  }
  // The next two groups of settings take their values together.
  int v = mc::choose(mc::thorough() ? 9 : 3, "values"), a = mc::thorough() ? v / 3 : v, b = v % 3;
  g_exe = "/opt/some/program";
  g_exe_errno = 0;
  std::string program = "program";
  if (a == 1) {
    o.component_name = "service";
    o.tags = {{"k", "v"}, {"n", 7}, {"t", true}};
    o.access_token = "token";
    o.ssl_root_certificates = "PEM";
  } else if (a == 2) {
    o.tags = {{"lightstep.tracer_version", "mine"}, {"lightstep.tracer_platform", 1}, {"", "empty"}};
    o.access_token = std::string("\0\xc3\xa9", 3);
    g_exe_errno = ENOENT;
    program = "c++-program";
  }
  if (b == 1) {
    o.reporting_period = std::chrono::steady_clock::duration::zero();
    o.max_buffered_spans = size_t{1};
  } else if (b == 2) {
    o.collector_host = "host";
    o.collector_port = 1;
    o.satellite_endpoints = {{"h", uint16_t{1}}, {"i", uint16_t{65535}}};
    o.reporting_period = std::chrono::milliseconds{20};
    o.report_timeout = std::chrono::hours{1};
    o.max_buffered_spans = std::function<size_t()>{[] { return size_t{2}; }};
  }
  s.fail_make = mc::choose(2, "the recorder cannot be made");
  bool observer = mc::choose(2, "observer");
  if (observer) o.metrics_observer.reset(new Observer);
  o.logger_sink = [&s](LogLevel l, opentracing::string_view t) {
    std::lock_guard<std::mutex> g{s.m};
    s.log.emplace_back((int)l, std::string(t));
  };
  switch (kind) {
    case kNone: case kKinds: break;
    case kSync: o.transporter.reset(new Sync); break;
    case kAsync: o.transporter.reset(new Async); break;
    case kLegacy: o.transporter.reset(new Legacy); break;
    case kBare: o.transporter.reset(new Bare); break;
  }
  Copy(want, o);
  // What is to come of it.
  bool stream = o.use_stream_recorder && o.use_thread;
  bool possible, open = o.use_stream_recorder && !o.use_thread;  // refused or flushed by hand: not promised
  if (!o.use_thread) possible = kind == kAsync || kind == kLegacy;
  else if (stream) possible = o.collector_plaintext && kind == kNone;
  else possible = kind == kNone || kind == kSync;
  bool uses_fake = o.use_thread && possible && (stream || kind == kNone);
  if (uses_fake && s.fail_make) possible = false;
  if (want.reporting_period == want.reporting_period.zero()) want.reporting_period = std::chrono::milliseconds{500};
  auto modes = Formats(want);
  auto tags = WantTags(want.tags, want.component_name, program);
  {
    auto t = MakeLightStepTracer(std::move(o));
    o = LightStepTracerOptions{};  // what was left behind goes away
    if (!(open && possible && !t)) MC_CHECK((t != nullptr) == possible, possible ? "a valid configuration was refused" : "an invalid configuration was accepted");
    if (!t) {
      int errors = 0;
      for (auto& l : s.log) errors += l.first == (int)LogLevel::error;
      MC_CHECK(errors, "a refused configuration is not explained");
      MC_CHECK(s.sync_sends + s.async_sends + s.legacy_sends == 0, "something was sent");
      MC_CHECK(s.transporters == 0 && s.observers == 0 && s.stream_live == 0, "%d transporters, %d observers and %d recorders left behind", s.transporters, s.observers, s.stream_live);
      mc::outcome("refused");
    } else {
      MC_CHECK(s.stream_made == (stream ? 1 : 0), "%d streaming recorders were made", s.stream_made);
      MC_CHECK(s.grpc_made == (o.use_thread && want.use_thread && !stream && kind == kNone ? 1 : 0), "%d default transports were made", s.grpc_made);
      if (uses_fake) {
        CheckSame(s.given, want);
        MC_CHECK((int)s.level == (int)(want.verbose ? LogLevel::info : LogLevel::error), "log level %d with verbose %d", (int)s.level, want.verbose);
        Tags got;
        for (auto& x : s.given.tags) got[x.first] = Show(x.second);
        CheckTags(got, tags);
      }
      MC_CHECK(Written(*t) == modes, "contexts are not written in the formats asked for");
      // One span, so that a report is due.
      { auto span = t->StartSpan("s"); MC_CHECK(span, "no span"); span->Finish(); }
      if (!want.use_thread) {
        if (b != 1) MC_CHECK(s.reports.empty(), "%zu reports sent before a flush", s.reports.size());
        MC_CHECK(t->Flush(), "flush failed");
        MC_CHECK(s.reports.size() == 1, "%zu reports after a flush", s.reports.size());
      } else if (stream) {
        MC_CHECK(s.stream_spans == 1, "the streaming recorder got %d spans", s.stream_spans);
      } else if (b != 0) {
        // the batching recorder reports soon enough by itself
        MC_CHECK(t->FlushWithTimeout(std::chrono::seconds{60}), "flush failed");
      }
      t.reset();
      if (!stream) {
        if (want.use_thread && b != 0) MC_CHECK(s.reports.size() >= 1, "the span was not reported");
        for (auto& bytes : s.reports) {
          auto r = wire::ReadReport(bytes);
          MC_CHECK(r.auths == 1 && r.token == want.access_token, "access token \"%s\"", r.token.c_str());
          Tags got;
          for (auto& x : r.reporter_tags) { MC_CHECK(!got.count(x.key), "tag %s twice", x.key.c_str()); got[x.key] = ShowKV(x); }
          CheckTags(got, tags);
        }
        MC_CHECK(!s.sync_sends || (want.use_thread && (kind == kSync || kind == kNone)), "wrong transport");
        MC_CHECK(!s.async_sends || kind == kAsync, "wrong transport");
        MC_CHECK(!s.legacy_sends || kind == kLegacy, "wrong transport");
        if (observer && s.reports.size()) MC_CHECK(s.observed >= 1, "the observer was not told of a flush");
      }
      mc::outcome(stream ? "streaming" : want.use_thread ? "batching" : "by hand");
    }
  }
  MC_CHECK(s.transporters == 0 && s.observers == 0 && s.stream_live == 0, "%d transporters, %d observers and %d recorders left behind", s.transporters, s.observers, s.stream_live);
  if (!want.verbose) for (auto& l : s.log) MC_CHECK(l.first >= (int)LogLevel::error, "\"%s\" is logged although not verbose", l.second.c_str());
  seen = nullptr;
  mc::evaluated();
}

// The program's name, from every kind of path.
MC_SCENARIO(program, 0, 0) {
  Seen s;
  seen = &s;
  static const char* paths[] = {"/opt/some/program", "/p", "program", "/opt/a b/c", "/with.dots/x.y", "/", "", "/a/"};
  int n = mc::choose(10, "path");
  std::string longest;
  g_exe_errno = 0;
  std::string want;
  if (n < 8) { g_exe = paths[n]; want = g_exe; }
  else if (n == 8) { g_exe_errno = mc::choose(2, "errno") ? EACCES : ENOENT; want = "c++-program"; }
  else { longest = "/x/" + std::string((size_t)(1014 + mc::choose(8, "length")), 'n'); g_exe = longest.c_str(); want = longest; }
  if (n != 8) want = want.substr(want.rfind('/') + 1 /* npos + 1 is 0 */);
  LightStepTracerOptions o;
  o.use_stream_recorder = o.collector_plaintext = true;
  MC_CHECK(MakeLightStepTracer(std::move(o)), "refused");
  MC_CHECK(Show(s.given.tags["lightstep.component_name"]) == "s:" + want, "component %s, expected %s", Show(s.given.tags["lightstep.component_name"]).c_str(), want.c_str());
  seen = nullptr;
  g_exe_errno = 0;
  g_exe = "/opt/some/program";
  mc::evaluated();
}

// ---- JSON ----
namespace {
typedef tracer_configuration::TracerConfiguration Config;
// The options that a configuration stands for; false if it is not valid.
bool Meant(const Config& c, LightStepTracerOptions& o) {
  o = LightStepTracerOptions{};
  o.component_name = c.component_name();
  o.access_token = c.access_token();
  if (!c.collector_host().empty()) o.collector_host = c.collector_host();
  if (c.collector_port()) o.collector_port = c.collector_port();
  o.collector_plaintext = c.collector_plaintext();
  o.use_single_key_propagation = c.use_single_key_propagation();
  if (c.max_buffered_spans()) o.max_buffered_spans = size_t{c.max_buffered_spans()};
  if (c.reporting_period()) o.reporting_period = std::chrono::microseconds{c.reporting_period()};
  if (c.report_timeout()) o.report_timeout = std::chrono::microseconds{c.report_timeout()};
  o.ssl_root_certificates = c.ssl_root_certificates();
  o.use_stream_recorder = c.use_stream_recorder();
  if (c.satellite_endpoints_size()) o.satellite_endpoints.clear();
  for (auto& e : c.satellite_endpoints()) {
    if (e.port() < 1 || e.port() > 65535) return false;
    o.satellite_endpoints.emplace_back(e.host(), (uint16_t)e.port());
  }
  o.verbose = c.verbose();
  static const std::map<std::string, PropagationMode> modes = {{"lightstep", PropagationMode::lightstep}, {"b3", PropagationMode::b3}, {"envoy", PropagationMode::envoy}, {"trace_context", PropagationMode::trace_context}, {"cloud_trace", PropagationMode::cloud_trace}};
  for (auto& m : c.propagation_modes()) {
    auto i = modes.find(m);
    if (i == modes.end()) return false;
    o.propagation_modes.push_back(i->second);
  }
  for (auto& t : c.tags()) o.tags[t.first] = t.second;
  return true;
}
// std::cerr gets the explanations; keep them out of the check's own output.
struct Quiet {
  std::streambuf* old;
  std::ostringstream os;
  Quiet() : old(std::cerr.rdbuf(os.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
void CheckJson(const std::string& json) {
  Config c;
  bool parses = google::protobuf::util::JsonStringToMessage(json.c_str(), &c).ok();
  LightStepTracerOptions want;
  bool valid = parses && Meant(c, want);
  Quiet q;
  std::string error;
  auto got = MakeTracerOptions(json.c_str(), error);
  MC_CHECK((bool)got == valid, "%s configuration %s: %s", valid ? "valid" : "invalid", valid ? "refused" : "accepted", json.c_str());
  if (!valid) {
    MC_CHECK(parses || (got.error() == opentracing::configuration_parse_error && !error.empty()), "unreadable text: %s (\"%s\")", got.error().message().c_str(), error.c_str());
    MC_CHECK(got.error(), "no error code");
    mc::outcome(parses ? "invalid" : "unreadable");
    return;
  }
  CheckSame(*got, want);
  MC_CHECK(got->tags.size() == want.tags.size(), "%zu tags", got->tags.size());
  for (auto& t : want.tags) MC_CHECK(got->tags.count(t.first) && Show(got->tags[t.first]) == Show(t.second), "tag %s", t.first.c_str());
  MC_CHECK(!got->transporter && !got->metrics_observer && !got->logger_sink, "something was set that JSON cannot say");
  mc::outcome("valid");
}
const std::pair<const char*, std::vector<const char*>> kFields[] = {
    {"component_name", {"\"svc\"", "\"\"", "7", "\"\\u00e9\\n\""}},
    {"access_token", {"\"tok\"", "\"\"", "null"}},
    {"collector_host", {"\"h.example\"", "\"\"", "[]"}},
    {"collector_port", {"1", "0", "65535", "65536", "4294967295", "4294967296", "-1", "\"8\"", "1.5"}},
    {"collector_plaintext", {"true", "false", "1", "\"true\""}},
    {"use_single_key_propagation", {"true", "false"}},
    {"max_buffered_spans", {"3", "0", "4294967295", "-1"}},
    {"reporting_period", {"250000", "0", "1", "4294967295", "-1"}},
    {"report_timeout", {"1000000", "0", "1", "4294967295", "\"x\""}},
    {"ssl_root_certificates", {"\"PEM\"", "\"\""}},
    {"use_stream_recorder", {"true", "false"}},
    {"satellite_endpoints", {"[{\"host\":\"a\",\"port\":1},{\"host\":\"b\",\"port\":65535}]", "[]", "[{\"host\":\"a\",\"port\":0}]", "[{\"host\":\"a\",\"port\":65536}]", "[{\"host\":\"a\"}]", "[{\"port\":5}]", "[{\"host\":\"a\",\"port\":1},{\"host\":\"b\",\"port\":4294967295}]", "{}"}},
    {"verbose", {"true", "false"}},
    {"propagation_modes", {"[\"b3\",\"lightstep\"]", "[]", "[\"envoy\"]", "[\"trace_context\",\"cloud_trace\"]", "[\"B3\"]", "[\"\"]", "[\"b3\",\"b33\"]", "[\"b3\",\"b3\"]", "\"b3\""}},
    {"tags", {"{\"a\":\"1\",\"b\":\"\"}", "{}", "{\"\":\"x\"}", "{\"lightstep.component_name\":\"mine\"}", "{\"a\":1}", "[]"}},
    {"no_such_field", {"1"}},
};
const int kNumFields = 15;
std::string Camel(const char* n) {
  std::string r;
  for (; *n; ++n) r += *n == '_' ? (char)toupper(*++n) : *n;
  return r;
}
const char* const kFull = R"({"component_name":"svc","access_token":"t","collector_host":"h","collector_port":80,"collector_plaintext":true,
"use_single_key_propagation":true,"max_buffered_spans":10,"reporting_period":5,"report_timeout":6,"ssl_root_certificates":"P","use_stream_recorder":true,
"satellite_endpoints":[{"host":"a","port":65535}],"verbose":true,"propagation_modes":["b3","envoy"],"tags":{"a":"1"}})";
}  // namespace
// Every subset of the settings.
MC_SCENARIO(json_subsets, 0, 0) {
  std::string j = "{", sep;
  for (int i = 0; i < kNumFields; ++i)
    if (mc::choose(2, "given")) { j += sep + "\"" + kFields[i].first + "\":" + kFields[i].second[0]; sep = ","; }
  CheckJson(j + "}");
  mc::evaluated();
}
// Every value of one or two settings.
MC_SCENARIO(json_values, 0, 0) {
  std::string j = "{", sep;
  int from = 0;
  for (int k = 0; k < (mc::thorough() ? 3 : 2) && from <= kNumFields; ++k) {
    int f = from + mc::choose(kNumFields + 1 - from, "field");
    from = f + 1;
    int camel = mc::choose(2, "camel case");
    auto& val = kFields[f].second;
    j += sep + "\"" + (camel ? Camel(kFields[f].first) : kFields[f].first) + "\":" + val[(size_t)mc::choose((int)val.size(), "value")];
    sep = ",";
    if (!mc::choose(2, "more")) break;
  }
  CheckJson(j + "}");
  mc::evaluated();
}
// Every text that is one byte away from a full configuration.
MC_SCENARIO(json_corruptions, 0, 0) {
  std::string j = kFull;
  int at = mc::choose((int)j.size() + 1, "position");
  switch (mc::choose(4, "corruption")) {
    case 0: j.resize((size_t)at); break;
    case 1: if (at < (int)j.size()) j.erase((size_t)at, 1); break;
    case 2: j.insert((size_t)at, 1, "\"{}[],:0a\\\xff\x01"[mc::choose(12, "byte")]); break;
    case 3: {
      if (at == (int)j.size()) break;
      if (mc::thorough()) j[(size_t)at] = (char)mc::choose(256, "byte");
      else j[(size_t)at] = "\"{}[],:019aZ-.e \\\xff\x01\x80\n\0"[mc::choose(23, "byte")];
    }
  }
  CheckJson(j);
  mc::evaluated();
}
// The factory, as a program that loads the library uses it.
MC_SCENARIO(factory, 0, 0) {
  Seen s;
  seen = &s;
  g_exe = "/opt/some/program";
  g_exe_errno = 0;
  Quiet q;
  static const char* abis[] = {OPENTRACING_ABI_VERSION, "", "0", OPENTRACING_ABI_VERSION ".0", "x"};
  const char* abi = abis[mc::choose(5, "abi")];
  const char* version = mc::choose(2, "version") ? "0.0.1" : OPENTRACING_VERSION;
  const void* category = nullptr;
  std::string message;
  void* made = nullptr;
  int rc = OpenTracingMakeTracerFactory(version, abi, &category, &message, &made);
  if (strcmp(abi, OPENTRACING_ABI_VERSION)) {
    MC_CHECK(rc == opentracing::incompatible_library_versions_error.value(), "a library of another ABI was accepted (%d)", rc);
    MC_CHECK(category == &opentracing::dynamic_load_error_category(), "wrong error category");
    MC_CHECK(!message.empty() && !made, "no explanation, or a factory all the same");
    mc::outcome("another ABI");
    mc::evaluated();
    return;
  }
  MC_CHECK(rc == 0 && made, "no factory (%d)", rc);
  std::unique_ptr<opentracing::TracerFactory> f{static_cast<opentracing::TracerFactory*>(made)};
  static const char* texts[] = {"{}", R"({"component_name":"svc"})", R"({"use_stream_recorder":true})", R"({"use_stream_recorder":true,"collector_plaintext":true})",
                                R"({"satellite_endpoints":[{"host":"a","port":0}]})", R"({"propagation_modes":["x"]})", "", "{", "[]", "{\"x\":1}", R"({"collector_plaintext":1})"};
  int n = mc::choose(11, "text");
  s.fail_make = mc::choose(2, "the recorder cannot be made");
  std::string error;
  {
    auto t = f->MakeTracer(texts[n], error);
    f.reset();
    bool ok = (n == 0 || n == 1 || n == 3) && !s.fail_make;
    MC_CHECK((bool)t == ok, "%s: %s", texts[n], ok ? "refused" : "accepted");
    if (ok) {
      MC_CHECK(*t, "success without a tracer");
      MC_CHECK(s.stream_made == (n == 3) && s.grpc_made == (n != 3), "the wrong recorder was made");
      MC_CHECK(Show(s.given.tags["lightstep.component_name"]) == (n == 1 ? "s:svc" : "s:program"), "component %s", Show(s.given.tags["lightstep.component_name"]).c_str());
      mc::outcome("a tracer");
    } else {
      MC_CHECK(t.error(), "no error code");
      if (n >= 6) MC_CHECK(t.error() == opentracing::configuration_parse_error && !error.empty(), "unreadable text: %s (\"%s\")", t.error().message().c_str(), error.c_str());
      else if (n <= 3) MC_CHECK(t.error() == opentracing::invalid_configuration_error, "%s", t.error().message().c_str());
      mc::outcome(t.error().message().c_str());
    }
  }
  MC_CHECK(s.transporters == 0 && s.stream_live == 0, "something was left behind");
  seen = nullptr;
  mc::evaluated();
}

// mc: variant=asan
// C12: the manually flushed recorders over every history of spans, flushes and
// transport outcomes.
#include <deque>
#include "spans.h"
using namespace spans;
namespace {
struct Counts : MetricsObserver {
  int *sent, *dropped, *flushes;
  void OnSpansSent(int n) noexcept override { *sent += n; }
  void OnSpansDropped(int n) noexcept override { *dropped += n; }
  void OnFlush() noexcept override { ++*flushes; }
};
enum Fate { kLater, kSuccess, kFailure, kThrow, kThrowOther };
struct Flight { std::vector<int> spans; int64_t drops; std::unique_ptr<BufferChain> message; };
struct Model {
  bool legacy;
  size_t cap = 2;
  int next = 0;
  // ours
  std::vector<int> pending;
  int drops = 0;
  bool disabled = false;
  std::deque<Flight> flights;
  int want_sent = 0, want_dropped = 0, sends = 0;
  int expected_sends = 0;
  // theirs
  int sent = 0, dropped = 0, flushes = 0;
  uint64_t reporter = 0;
  bool have_reporter = false;
  std::shared_ptr<LightStepTracer> tracer;
  AsyncTransporter::Callback* cb = nullptr;
  LegacyAsyncTransporter::Callback* lcb = nullptr;
  google::protobuf::Message* response = nullptr;
  const google::protobuf::Message* request = nullptr;
  std::string request_bytes;
  bool expecting = false, full_callback = false;
  Fate fate = kLater;
  int then_add = -1;  // a span recorded right after this report is sent
  // A report arrives at the transport.
  Flight Arrived(const std::string& bytes) {
    MC_CHECK(expecting, "a report was sent that nobody asked for");
    expecting = false;
    ++sends;
    auto r = wire::ReadReport(bytes);
    Flight f;
    for (auto& s : r.spans) f.spans.push_back(atoi(s.name.c_str()));
    MC_CHECK(r.auths == 1 && r.token == "token", "access token \"%s\"", r.token.c_str());
    MC_CHECK(r.reporters == 1 && r.reporter_tags.size() == 1 && r.reporter_tags[0].key == "tag", "the report does not say whose it is");
    MC_CHECK(!have_reporter || reporter == r.reporter_id, "the reporter's id changed");
    reporter = r.reporter_id;
    have_reporter = true;
    MC_CHECK(f.spans == pending, "the report has %zu spans (first %d), expected %zu (first %d)", f.spans.size(), f.spans.empty() ? -1 : f.spans[0], pending.size(), pending.empty() ? -1 : pending[0]);
    f.drops = 0;
    for (auto& c : r.counts) { MC_CHECK(c.first == "spans.dropped", "count %s", c.first.c_str()); f.drops += c.second; }
    MC_CHECK(f.drops == drops, "the report tells of %lld dropped spans, expected %d", (long long)f.drops, drops);
    pending.clear();
    drops = 0;
    return f;
  }
  Fate PickFate() {
    Fate f = (Fate)mc::deviate(legacy ? 5 : 3, "send");
    mc::log("send: %d", f);
    fate = f;
    if (then_add >= 0) {
      pending.push_back(then_add);
      then_add = -1;
      if (pending.size() >= cap && f != kLater) expecting = true;
    }
    return f;
  }
  // Outcome of a report, as the account sees it.
  void Settled(const Flight& f, bool ok) {
    if (ok) { if (!legacy) want_sent += (int)f.spans.size(); return; }
    want_dropped += (int)f.spans.size();
    drops += (int)f.spans.size() + (int)f.drops;
  }
};
struct Async : AsyncTransporter {
  Model& m;
  explicit Async(Model& m_) : m(m_) {}
  void OnSpanBufferFull() noexcept override {
    MC_CHECK(m.pending.size() == m.cap, "told that the buffer is full with %zu of %zu spans", m.pending.size(), m.cap);
    m.full_callback = true;
    if (mc::deviate(2, "flush when full")) { m.expecting = true; m.tracer->Flush(); }
  }
  void Send(std::unique_ptr<BufferChain>&& b, Callback& cb) noexcept override {
    std::string s(b->num_bytes(), 0);
    b->CopyOut(&s[0], s.size());
    auto f = m.Arrived(s);
    f.message = std::move(b);
    m.cb = &cb;
    switch (m.PickFate()) {
      case kSuccess: m.Settled(f, true); cb.OnSuccess(*f.message); break;
      case kFailure: m.Settled(f, false); cb.OnFailure(*f.message); break;
      default: m.flights.push_back(std::move(f));
    }
  }
};
struct LegacyAsync : LegacyAsyncTransporter {
  Model& m;
  explicit LegacyAsync(Model& m_) : m(m_) {}
  void Send(const google::protobuf::Message& q, google::protobuf::Message& r, Callback& cb) override {
    MC_CHECK(m.flights.empty(), "two reports are in flight");
    m.request_bytes = q.SerializeAsString();
    auto f = m.Arrived(m.request_bytes);
    m.lcb = &cb;
    m.response = &r;
    m.request = &q;
    m.want_sent += (int)f.spans.size();
    r.Clear();
    switch (m.PickFate()) {
      case kSuccess: m.Settled(f, true); cb.OnSuccess(); break;
      case kFailure: m.Settled(f, false); cb.OnFailure(std::make_error_code(std::errc::timed_out)); break;
      case kThrow: m.Settled(f, false); throw std::runtime_error("send");
      case kThrowOther: m.Settled(f, false); throw std::bad_alloc();
      default: m.flights.push_back(std::move(f));
    }
  }
};
void Start(Model& m, bool legacy, size_t cap) {
  m.legacy = legacy;
  m.cap = cap;
  LightStepTracerOptions o;
  o.access_token = "token";
  o.tags["tag"] = 1;
  o.max_buffered_spans = DynamicConfigurationValue<size_t>(std::function<size_t()>([&m] { return m.cap; }));
  auto* c = new Counts;
  c->sent = &m.sent;
  c->dropped = &m.dropped;
  c->flushes = &m.flushes;
  o.metrics_observer.reset(c);
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  auto po = MakePropagationOptions(o);
  if (legacy)
    m.tracer = std::make_shared<LegacyTracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new LegacyManualRecorder{*logger, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{new LegacyAsync{m}}}});
  else
    m.tracer = std::make_shared<TracerImpl>(logger, std::move(po), std::unique_ptr<Recorder>{new ManualRecorder{*logger, std::move(o), std::unique_ptr<AsyncTransporter>{new Async{m}}}});
}
void Check(Model& m) {
  MC_CHECK(!m.expecting, "a report was due but not sent");
  MC_CHECK(m.dropped == m.want_dropped, "%d dropped spans were told, expected %d", m.dropped, m.want_dropped);
  MC_CHECK(m.sent == m.want_sent, "%d sent spans were told, expected %d", m.sent, m.want_sent);
  int in_flight = 0;
  for (auto& f : m.flights) in_flight += (int)f.spans.size();
  uint64_t h = mc::mix(m.pending.size(), m.drops);
  for (auto& f : m.flights) h = mc::mix(h, f.spans.size() * 100 + f.drops);
  mc::state(mc::mix(h, m.disabled));
}
void Record(Model& m) {
  int id = m.next++;
  auto add = [&] { m.pending.push_back(id); };
  auto drop = [&] { ++m.drops; ++m.want_dropped; };
  auto s = m.tracer->StartSpan(std::to_string(id));
  if (m.legacy) {
    if (m.disabled) { drop(); s->Finish(); return; }
    bool full = m.pending.size() >= m.cap;
    if (full && !m.flights.empty()) { drop(); s->Finish(); return; }
    if (full) {
      // first the full buffer, then possibly the span itself: both in Finish
      m.then_add = id;
      m.expecting = true;
      s->Finish();
      MC_CHECK(m.then_add < 0, "a full buffer was not sent");
      return;
    }
    add();
    if (m.pending.size() >= m.cap && m.flights.empty()) m.expecting = true;
    s->Finish();
    return;
  }
  if (m.pending.size() < m.cap) { add(); s->Finish(); return; }
  size_t before = m.pending.size();
  m.full_callback = false;
  s->Finish();
  MC_CHECK(m.full_callback, "the transport was not told that the buffer is full");
  if (m.pending.size() < m.cap) add();
  else drop();
  (void)before;
}
void Flush(Model& m) {
  int flushes = m.flushes;
  bool r, due = m.legacy ? !m.disabled && m.flights.empty() && !m.pending.empty() : !m.pending.empty() || m.drops;
  bool want = true;
  if (m.legacy) want = !m.disabled && (m.flights.empty() || m.pending.empty());
  m.expecting = due;
  m.fate = kLater;
  r = m.tracer->Flush();
  if (due && (m.fate == kThrow || m.fate == kThrowOther)) want = false;
  MC_CHECK(r == want, "flush said %d, expected %d", r, want);
  if (due) MC_CHECK(m.flushes == flushes + 1, "%d flushes were told", m.flushes - flushes);
}
void Settle(Model& m, size_t which, bool ok, bool disable = false) {
  auto f = std::move(m.flights[which]);
  m.flights.erase(m.flights.begin() + which);
  m.Settled(f, ok);
  if (m.legacy) {
    MC_CHECK(m.request->SerializeAsString() == m.request_bytes, "the report in flight was changed");
    if (disable) {
      dynamic_cast<collector::ReportResponse&>(*m.response).add_commands()->set_disable(true);
      m.disabled = true;
    }
    if (ok) m.lcb->OnSuccess();
    else m.lcb->OnFailure(std::make_error_code(std::errc::timed_out));
  } else if (ok)
    m.cb->OnSuccess(*f.message);
  else
    m.cb->OnFailure(*f.message);
}
void History(bool legacy, size_t cap, int depth) {
  Model m;
  Start(m, legacy, cap);
  for (int i = 0; i < depth; ++i) {
    std::vector<int> ops{0, 1};
    if (!m.flights.empty()) { ops.push_back(2); ops.push_back(3); if (legacy) ops.push_back(4); }
    if (legacy && m.cap > 1) ops.push_back(7);
    if (m.flights.size() > 1) { ops.push_back(5); ops.push_back(6); }
    int op = ops[mc::choose((int)ops.size(), "op")];
    mc::log("op %d", op);
    switch (op) {
      case 0: Record(m); break;
      case 1: Flush(m); break;
      case 2: Settle(m, 0, true); break;
      case 3: Settle(m, 0, false); break;
      case 4: Settle(m, 0, true, true); break;
      case 5: Settle(m, m.flights.size() - 1, true); break;
      case 7: --m.cap; break;
      case 6: Settle(m, m.flights.size() - 1, false); break;
    }
    Check(m);
  }
  // whatever happened, it can be used
  while (!m.flights.empty()) { Settle(m, 0, true); Check(m); }
  if (!m.disabled) {
    Flush(m);
    Check(m);
    while (!m.flights.empty()) Settle(m, 0, true);
    bool room = m.pending.size() < m.cap;
    Record(m);
    Check(m);
    while (!m.flights.empty()) Settle(m, 0, true);
    Flush(m);
    Check(m);
    if (room && m.fate != kFailure && m.fate != kThrow && m.fate != kThrowOther) MC_CHECK(m.pending.empty(), "the last spans cannot be flushed");
  }
  m.flights.clear();
  m.tracer.reset();
  mc::evaluated();
}
}  // namespace
MC_SCENARIO(manual, 2, 4) { size_t cap = 1 + mc::choose(3, "capacity"); History(false, cap, mc::thorough() ? 10 : 8); }
MC_SCENARIO(legacy, 2, 4) { size_t cap = 1 + mc::choose(3, "capacity"); History(true, cap, mc::thorough() ? 10 : 7); }

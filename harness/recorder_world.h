// The streaming recorder with its own thread over the simulated network.
#pragma once
#include <thread>
#include "common/random.h"
#include "entropy.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "simnet.h"
using namespace lightstep;
// what is not about the bytes and the counts
#ifdef ACCOUNT_ONLY
#define LIVE_CHECK(...) ((void)0)
#else
#define LIVE_CHECK MC_CHECK
#endif
namespace {
using simnet::kMaxSpans;
const int64_t kPoll = 1000, kSlack = 400;  // us
struct Slot {
  Int state{0};  // 1 being recorded, 2 recorded
  Int dropped{0}, cleared{0};
  Int producer{0};
  mc::Stamp recorded{0, 0};  // valid in state 2
};
struct World;
World* w;
struct World {
  fake_event::Scope events;
  simnet::Net n;
  Slot slots[kMaxSpans];
  Int current[8], from[8];  // the span a thread records, spans gone from the buffer when it started
  Int closing;
  Int sent, dropped, flushes, refused;
  int cap, next = 0;
  StreamRecorder* rec = nullptr;
  Logger logger{[](LogLevel, opentracing::string_view m) { mc::log("    log: %.*s", (int)m.size(), m.data()); }};
  int64_t reporting = 3600ll * 1000000;
  int64_t grace = 2000;
  int conns = 1;
  explicit World(int cap_) : cap(cap_) {
    w = this;
    for (auto& c : current) Wr(c, -1);
    simnet::net_() = &n;
    events.w.dispatch = simnet::Dispatch;
    events.w.now = simnet::Net::now();
    logger.set_level(mc::logging() ? LogLevel::debug : LogLevel::off);
    if (!entropy::shared_()) entropy::fresh();
    std::seed_seq seed{11, 12, 13};
    GetRandomNumberGenerator().seed(seed);
  }
  ~World() { simnet::net_() = nullptr; w = nullptr; }
  // spans in the buffer
  ORACLE int PendingAtMost(int except) {
    int p = 0;
    for (int i = 0; i < kMaxSpans; ++i)
      if (i != except && slots[i].state.v >= 1 && !slots[i].dropped.v && !slots[i].cleared.v) ++p;
    return p - from[mc::thread_index()].v;
  }
  // certainly recorded and not sent
  ORACLE int Waiting() {
    int p = 0;
    for (int i = 0; i < kMaxSpans; ++i)
      if (slots[i].state.v == 2 && !slots[i].dropped.v && !slots[i].cleared.v && !n.started[i].v) ++p;
    return p;
  }
};
struct Obs : MetricsObserver {
  void OnSpansSent(int k) noexcept override {
    MC_CHECK(k >= 0, "%d spans counted as sent", k);
    Add(w->sent, k);
  }
  void OnSpansDropped(int k) noexcept override {
    MC_CHECK(k >= 0, "%d spans counted as dropped", k);
    Add(w->dropped, k);
    int cur = Rd(w->current[mc::thread_index()]);
    if (cur < 0) return;  // by the recorder's thread
    MC_CHECK(k == 1 && !Rd(w->slots[cur].dropped), "%d spans counted as dropped when one was recorded", k);
    MC_CHECK(w->PendingAtMost(cur) >= w->cap, "a span was dropped though at most %d are waiting and %d are allowed", w->PendingAtMost(cur), w->cap);
    Wr(w->slots[cur].dropped, 1);
    Add(w->refused, 1);
  }
  void OnFlush() noexcept override { Add(w->flushes, 1); }
};
// (so that the handlers of fork are registered before any execution)
struct Dummy : ForkAwareRecorder {
  Fragment ReserveHeaderSpace(ChainedStream&) override { return {}; }
  void WriteFooter(google::protobuf::io::CodedOutputStream&) override {}
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override {}
};
struct Once { Once() { Dummy d; } };
Once once;

void Start() {
  mc::NoPreempt np;
  LightStepTracerOptions t;
  t.access_token = "token";
  t.satellite_endpoints = {{"satellite", 8080}};
  t.max_buffered_spans = (size_t)w->cap;
  t.reporting_period = std::chrono::microseconds{w->reporting};
  t.metrics_observer.reset(new Obs);
  StreamRecorderOptions r;
  const std::chrono::microseconds hour{3600ll * 1000000};
  r.polling_period = std::chrono::microseconds{kPoll};
  r.timestamp_delta_period = hour;
  r.num_satellite_connections = w->conns;
  r.min_dns_resolution_refresh_period = r.max_dns_resolution_refresh_period = hour;
  r.satellite_write_timeout = r.min_satellite_reconnect_period = r.max_satellite_reconnect_period = hour;
  r.satellite_failure_retry_period = std::chrono::microseconds{1500};
  r.satellite_graceful_stream_shutdown_timeout = std::chrono::microseconds{w->grace};
  w->rec = new StreamRecorder(w->logger, std::move(t), std::move(r));
}
ORACLE void Publish(int id) {
  w->slots[id].recorded = mc::stamp();
  w->slots[id].state.v = 2;
}
// Whether the calling thread is bound to know that the span was recorded.
ORACLE bool Known(int id) { return w->slots[id].state.v == 2 && mc::ordered(w->slots[id].recorded); }
bool Record(int id, int producer = 0) {
  std::unique_ptr<ChainedStream> s{new ChainedStream{}};
  Fragment header;
  {
    mc::NoPreempt np;
    header = w->rec->ReserveHeaderSpace(*s);
    google::protobuf::io::CodedOutputStream c{s.get()};
    c.WriteString(simnet::BodyOf(id));
    w->rec->WriteFooter(c);
  }
  int t = mc::thread_index();
  Wr(w->slots[id].producer, producer);
  Wr(w->current[t], id);
  Wr(w->from[t], Rd(w->n.consumed));
  Wr(w->slots[id].state, 1);
  w->rec->RecordSpan(header, std::move(s));
  Wr(w->current[t], -1);
  Publish(id);
  if (Rd(w->slots[id].dropped)) {
    MC_CHECK(!Rd(w->n.started[id]), "span %d was dropped and sent", id);
    mc::log("span %d dropped", id);
  } else mc::log("span %d recorded", id);
  MC_CHECK(w->Waiting() <= w->cap + (int)(Rd(w->n.nstarted) - Rd(w->n.consumed)), "%d spans are waiting, %d are allowed", w->Waiting(), w->cap);
  return !Rd(w->slots[id].dropped);
}
std::chrono::system_clock::duration Us(int64_t us) { return std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::microseconds(us)); }
bool Connected() { return Rd(w->n.ready) > 0; }
bool Flush(int64_t timeout) {
  int before[kMaxSpans], k = 0;
  for (int i = 0; i < kMaxSpans; ++i)
    if (Known(i) && !Rd(w->slots[i].dropped) && !Rd(w->slots[i].cleared)) before[k++] = i;
  int64_t t0 = simnet::Net::now();
  int d0 = mc::deviations();
  bool connected = Connected() && !Rd(w->closing);
  bool r = w->rec->FlushWithTimeout(Us(timeout));
  int64_t t1 = simnet::Net::now();
  bool calm = mc::deviations() == d0;
  mc::log("flush: %d after %lld us", r, (long long)(t1 - t0));
  if (r)
    for (int i = 0; i < k; ++i) LIVE_CHECK(Rd(w->n.started[before[i]]), "flush returned true while span %d was waiting", before[i]);
  else
    LIVE_CHECK(t1 - t0 >= timeout, "flush gave up after %lld us though it was given %lld us", (long long)(t1 - t0), (long long)timeout);
  if (calm) {
    LIVE_CHECK(t1 - t0 <= timeout + kSlack, "flush takes %lld us though it was given %lld us", (long long)(t1 - t0), (long long)timeout);
    if (connected && timeout >= 2 * kPoll)
      LIVE_CHECK(r && t1 - t0 <= kPoll + kSlack, "flush %s after %lld us though a connection can take the spans", r ? "returns" : "fails", (long long)(t1 - t0));
  }
  return r;
}
bool Shutdown(int64_t timeout, bool alone = true) {
  int64_t t0 = simnet::Net::now();
  int d0 = mc::deviations();
  // every socket is connected (and no other one is opened meanwhile)
  bool calm0 = Rd(w->n.open_count) == Rd(w->n.ready) && (w->conns == 1 || Rd(w->n.ready) == w->conns);
  Wr(w->closing, 1);
  bool r = w->rec->ShutdownWithTimeout(Us(timeout));
  int64_t t1 = simnet::Net::now();
  bool calm = mc::deviations() == d0;
  mc::log("shutdown: %d after %lld us", r, (long long)(t1 - t0));
  if (r) {
    LIVE_CHECK(Rd(w->n.open_count) == 0, "shut down with %d connections open", Rd(w->n.open_count));
    Wr(w->n.forbid, mc::virtual_now());
  } else
    LIVE_CHECK(t1 - t0 >= timeout, "shutting down gave up after %lld us though it was given %lld us", (long long)(t1 - t0), (long long)timeout);
  if (calm) {
    LIVE_CHECK(t1 - t0 <= timeout + kSlack, "shutting down takes %lld us though it was given %lld us", (long long)(t1 - t0), (long long)timeout);
    // noticed at the next poll, ended after the grace period at the latest,
    // noticed at the poll after that
    if (timeout >= w->grace + 2 * kPoll + kSlack) LIVE_CHECK(r, "shutting down fails after %lld us", (long long)(t1 - t0));
    if (calm0 && w->n.o.reply_delay == 0 && timeout >= 3 * kPoll) LIVE_CHECK(r && t1 - t0 <= 2 * kPoll + kSlack, "shutting down %s after %lld us though the satellite answers", r ? "returns" : "fails", (long long)(t1 - t0));
  }
  return r;
}
void CheckOrder() {
  for (int i = 0; i < kMaxSpans; ++i)
    for (int j = i + 1; j < kMaxSpans; ++j)
      if (Rd(w->n.started[i]) && Rd(w->n.started[j]) && Rd(w->slots[i].producer) == Rd(w->slots[j].producer))
        MC_CHECK(Rd(w->n.order[i]) < Rd(w->n.order[j]), "span %d was sent before span %d", j, i);
}
// Everything is at rest: what was counted is what happened.
void CheckCounts() {
  int started = 0, complete = 0, cut = 0;
  for (int i = 0; i < kMaxSpans; ++i) {
    if (Rd(w->n.started[i])) MC_CHECK(Rd(w->slots[i].state) && !Rd(w->slots[i].dropped), "span %d was sent, but not accepted", i);
    started += Rd(w->n.started[i]);
    complete += Rd(w->n.complete[i]);
  }
  cut = started - complete;
  MC_CHECK(Rd(w->sent) == complete, "%d spans counted as sent, %d are completely on the wire", Rd(w->sent), complete);
  MC_CHECK(Rd(w->dropped) == Rd(w->refused) + cut, "%d spans counted as dropped, %d refused and %d cut off", Rd(w->dropped), Rd(w->refused), cut);
  MC_CHECK(Rd(w->n.announced) <= Rd(w->dropped), "%d drops announced, %d happened", Rd(w->n.announced), Rd(w->dropped));
}
void Finish() {
  bool connected = Connected() && !Rd(w->closing);
  int64_t t0 = simnet::Net::now();
  int d0 = mc::deviations();
  delete w->rec;
  w->rec = nullptr;
  int64_t t1 = simnet::Net::now();
  bool calm = mc::deviations() == d0;
  mc::log("destroyed after %lld us", (long long)(t1 - t0));
  LIVE_CHECK(mc::live_threads() == 0, "a thread outlives the recorder");
  LIVE_CHECK(Rd(w->n.open_count) == 0, "%d sockets outlive the recorder", Rd(w->n.open_count));
  LIVE_CHECK(w->events.w.bases.empty(), "an event loop outlives the recorder");
  for (auto e : w->events.w.events) LIVE_CHECK(e->once, "an event outlives the recorder");
  int waiting = 0, sent = 0, total = 0;
  for (int i = 0; i < kMaxSpans; ++i) {
    bool in = Rd(w->slots[i].state) && !Rd(w->slots[i].dropped) && !Rd(w->slots[i].cleared);
    total += in;
    sent += Rd(w->n.started[i]);
    waiting += in && !Rd(w->n.started[i]);
  }
  if (calm) {
    LIVE_CHECK(t1 - t0 <= kPoll + kSlack, "destroying the recorder takes %lld us", (long long)(t1 - t0));
    if (connected) {
      LIVE_CHECK(!waiting, "%d spans were never sent though a connection could take them", waiting);
      LIVE_CHECK(Rd(w->n.terminals) >= 1, "a stream is not ended when the recorder is destroyed");
    }
  }
  CheckOrder();
  CheckCounts();
  mc::outcome("sent " + std::to_string(sent) + " of " + std::to_string(total) + " refused " + std::to_string(Rd(w->refused)) + " sockets " + std::to_string(Rd(w->n.made)) + " faults " + std::to_string(Rd(w->n.faults)) + " writes " + std::to_string(Rd(w->n.writes)));
  mc::evaluated();
}
}  // namespace

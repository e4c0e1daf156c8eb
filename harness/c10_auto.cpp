// mc: variant=mct
// C10: the batching recorder: recording, flushing and closing threads against
// its writer thread, every schedule, time-out and transport result.
#include <thread>
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/auto_recorder.h"
#include "spans.h"
#include "threads.h"
#include "tracer/legacy/legacy_tracer_impl.h"
using namespace lightstep;
namespace {
const int64_t kPeriod = 500000000, kSlack = 3000000;
const int kMaxSpans = 12;
struct World;
World* w;
// Bookkeeping of the oracle: neither scheduling points nor accesses a race is
// looked for in (only one thread runs at a time).
#define ORACLE __attribute__((no_sanitize("thread"), noinline))
template <class T> struct Cell { volatile T v; Cell(T x = 0) : v(x) {} };
template <class T> ORACLE T Rd(const Cell<T>& a) { return a.v; }
template <class T, class U> ORACLE void Wr(Cell<T>& a, U x) { a.v = (T)x; }
template <class T> ORACLE T Add(Cell<T>& a, T n) { T o = a.v; a.v = o + n; return o; }
typedef Cell<int> Int;
struct Slot {
  Int state{0};  // 1 being recorded, 2 record returned
  Int dropped{0}, sends{0}, done{0};
};
struct Options {
  int min_cap = 1, max_cap = 1;
  bool fail = true, stop = true, slow = true;  // what the transport may do
};
struct World {
  Options o;
  Slot slots[kMaxSpans];
  Int current[8];
  Int cap{1};
  Int swapped{0}, total_dropped{0}, announced{0}, stopped{0}, send_count{0}, in_send{0}, destroyed{0};
  Int last_announced{0}, last_ok{0}, flushes{0};
  Cell<int64_t> due{0}, last_end{0}, stop_time{0};
  Int stop_dev;
  int last_of[4] = {-1, -1, -1, -1};  // writer thread only
  AutoRecorder* rec = nullptr;
  World() { for (auto& c : current) Wr(c, -1); }
  // spans accepted or perhaps being accepted, and not yet taken by the writer
  ORACLE int PendingAtMost(int except) {
    int n = 0;
    for (int i = 0; i < kMaxSpans; ++i)
      if (i != except && slots[i].state.v >= 1 && !slots[i].dropped.v) ++n;
    return n - swapped.v;
  }
};
struct Obs : MetricsObserver {
  void OnSpansSent(int n) noexcept override {
    Add(w->swapped, n);
  }
  void OnSpansDropped(int n) noexcept override {
    int t = mc::thread_index(), cur = Rd(w->current[t]);
    Add(w->total_dropped, n);
    if (cur < 0) return;  // a failed report
    MC_CHECK(n == 1, "%d spans counted as dropped when one was recorded", n);
    MC_CHECK(!Rd(w->slots[cur].dropped), "a span was counted as dropped twice");
    MC_CHECK(Rd(w->stopped) || w->PendingAtMost(cur) >= w->o.min_cap, "a span was dropped though at most %d are waiting and %d are allowed", w->PendingAtMost(cur), w->o.min_cap);
    Wr(w->slots[cur].dropped, 1);
  }
  void OnFlush() noexcept override {
    // The writer wakes up: its period is over or the buffer is full.
    mc::NoPreempt np;
    Add(w->flushes, 1);
    int64_t now = mc::virtual_now(), due = Rd(w->due);
    MC_CHECK(now + kSlack >= due || w->PendingAtMost(-1) >= w->o.min_cap, "a report is started %lld us before the period is over with at most %d spans waiting", (long long)((due - now) / 1000), w->PendingAtMost(-1));
    // (a late report does not delay the next one)
    Wr(w->due, (int64_t)(std::min(now, due) + kPeriod));
  }
};
struct Transport : SyncTransporter {
  ~Transport() override {
    Wr(w->destroyed, 1);
    MC_CHECK(!Rd(w->in_send), "the transport was destroyed during a send");
  }
  opentracing::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message& response) override {
    auto& r = dynamic_cast<const collector::ReportRequest&>(request);
    MC_CHECK(!Rd(w->stopped), "a report was sent after the recorder was stopped");
    MC_CHECK(!Add(w->in_send, 1), "two reports are sent at the same time");
    int n = r.spans_size();
    MC_CHECK(n >= 1 && n <= w->o.max_cap, "a report with %d spans", n);
    MC_CHECK(r.auth().access_token() == "tok", "report with access token %s", r.auth().access_token().c_str());
    MC_CHECK(r.reporter().tags_size() == 1 && r.reporter().tags(0).key() == "tag" && r.reporter().tags(0).string_value() == "v", "report without the tracer's tags");
    int ids[kMaxSpans];
    for (int i = 0; i < n; ++i) {
      auto& name = r.spans(i).operation_name();
      MC_CHECK(name.size() == 2, "a report contains a span nobody recorded");
      int id = name[1] - 'A', p = name[0] - 'a';
      MC_CHECK(id >= 0 && id < kMaxSpans && p >= 0 && p < 4 && Rd(w->slots[id].state), "a report contains a span nobody recorded");
      MC_CHECK(!Rd(w->slots[id].dropped), "a span is sent though it was counted as dropped");
      MC_CHECK(Add(w->slots[id].sends, 1) == 0, "span %s is sent twice", name.c_str());
      MC_CHECK(id > w->last_of[p], "spans of one thread are sent out of order");
      w->last_of[p] = id;
      ids[i] = id;
    }
    MC_CHECK(r.internal_metrics().counts_size() == 1 && r.internal_metrics().counts(0).name() == "spans.dropped", "report with %d counts", r.internal_metrics().counts_size());
    int drops = r.internal_metrics().counts(0).int_value();
    Wr(w->last_announced, drops);
    Add(w->send_count, 1);
    mc::point("send");
    int res[4], k = 0;
    res[k++] = 0;
    if (w->o.fail) res[k++] = 1;
    if (w->o.stop) res[k++] = 2, res[k++] = 3;
    int result = k > 1 ? res[mc::deviate(k, "result of the send")] : 0;
    if (w->o.slow) {
      int d = mc::deviate(3, "duration of the send");
      if (d) mc::advance_time(d == 1 ? kPeriod / 2 : 3 * kPeriod);
      mc::point("send");
    }
    MC_CHECK(!Rd(w->destroyed), "the transport was destroyed during a send");
    mc::log("report: %d spans, %d dropped: %s", n, drops, result == 0 ? "success" : result == 1 ? "failure" : result == 2 ? "disable" : "throw");
    for (int i = 0; i < n; ++i) Wr(w->slots[ids[i]].done, 1);
    Wr(w->last_ok, result == 0 || result == 2);
    if (result == 0 || result == 2) Add(w->announced, drops);
    Wr(w->last_end, mc::virtual_now());
    if (result >= 2) Wr(w->stopped, 1), Wr(w->stop_time, mc::virtual_now()), Wr(w->stop_dev, mc::deviations());
    Wr(w->in_send, 0);
    if (result == 1) return opentracing::make_unexpected(std::make_error_code(std::errc::timed_out));
    if (result == 2) dynamic_cast<collector::ReportResponse&>(response).add_commands()->set_disable(true);
    if (result == 3) throw std::runtime_error("transport");
    return {};
  }
};
LightStepTracerOptions MakeOptions() {
  LightStepTracerOptions lo;
  lo.access_token = "tok";
  lo.tags = {{"tag", "v"}};
  lo.reporting_period = std::chrono::nanoseconds(kPeriod);
  if (w->o.min_cap == w->o.max_cap)
    lo.max_buffered_spans = (size_t)w->o.max_cap;
  else
    lo.max_buffered_spans = std::function<size_t()>([] { return (size_t)Rd(w->cap); });
  lo.metrics_observer.reset(new Obs);
  return lo;
}
Logger* Quiet() {
  static Logger* l = new Logger([](LogLevel, opentracing::string_view) {});
  return l;
}
void Start(World& world, Options o) {
  w = &world;
  w->o = o;
  Wr(w->cap, o.max_cap);
  Wr(w->due, (int64_t)(mc::virtual_now() + kPeriod));
  w->rec = new AutoRecorder(*Quiet(), MakeOptions(), std::unique_ptr<SyncTransporter>(new Transport));
}
void Record(int producer, int id) {
  collector::Span s;
  { mc::NoPreempt np; s.set_operation_name(std::string{(char)('a' + producer), (char)('A' + id)}); }
  Wr(w->current[mc::thread_index()], id);
  Wr(w->slots[id].state, 1);
  w->rec->RecordSpan(s);
  Wr(w->slots[id].state, 2);
  Wr(w->current[mc::thread_index()], -1);
  MC_CHECK(!Rd(w->slots[id].dropped) || !Rd(w->slots[id].sends), "a dropped span was sent");
}
bool Flush(int64_t timeout) {
  int before[kMaxSpans], n = 0;
  for (int i = 0; i < kMaxSpans; ++i)
    if (Rd(w->slots[i].state) == 2 && !Rd(w->slots[i].dropped)) before[n++] = i;
  int64_t t0 = mc::virtual_now();
  int d0 = mc::deviations();
  bool r = w->rec->FlushWithTimeout(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(timeout)));
  int64_t t1 = mc::virtual_now();
  mc::log("flush: %d", r);
  if (r) {
    for (int i = 0; i < n; ++i) MC_CHECK(Rd(w->slots[before[i]].done), "flush returned true before span %c was handed over", 'A' + before[i]);
    if (mc::deviations() == d0)
      MC_CHECK(t1 - std::max(t0, Rd(w->last_end)) <= kSlack, "a flush still waits after everything was handed over");
  } else {
    MC_CHECK(Rd(w->stopped) || t1 - t0 >= timeout, "flush gave up after %lld us though it was given %lld us", (long long)((t1 - t0) / 1000), (long long)(timeout / 1000));
    if (Rd(w->stopped) && mc::deviations() == std::max(d0, Rd(w->stop_dev)))
      MC_CHECK(t1 - std::max(t0, Rd(w->stop_time)) <= kSlack, "a flush still waits after the recorder was stopped");
  }
  return r;
}
// The writer is left alone: whatever was recorded must reach the transport,
// and the drops must add up.
void Settle(int next_id) {
  for (int i = 0; i < 6 && !Rd(w->stopped); ++i) {
    int d = mc::deviations();
    bool r = Flush(6 * kPeriod);
    if (Rd(w->stopped)) break;
    MC_CHECK(r || mc::deviations() > d, "a flush fails with nothing in its way");
    if (r) break;
  }
  if (Rd(w->stopped)) {
    bool open = false;
    for (auto& s : w->slots) open = open || (Rd(s.state) == 2 && !Rd(s.dropped) && !Rd(s.done));
    mc::block_until([](void*) { return mc::live_threads() == 0; }, nullptr, "the end of the writer");
    Record(3, next_id);
    MC_CHECK(Rd(w->slots[next_id].dropped), "a span was accepted after the recorder was stopped");
    bool r = Flush(kPeriod);
    MC_CHECK(!(open && r), "flush returned true though spans are waiting and the recorder is stopped");
    return;
  }
  bool flushed = true;
  for (auto& s : w->slots) flushed = flushed && (Rd(s.state) != 2 || Rd(s.dropped) || Rd(s.done));
  if (!flushed) return;
  int announced = Rd(w->announced);
  int dropped = Rd(w->total_dropped);
  Record(3, next_id);
  MC_CHECK(!Rd(w->slots[next_id].dropped), "a span was dropped by an empty recorder");
  bool r = Flush(6 * kPeriod);
  if (!r || !Rd(w->slots[next_id].done)) return;
  MC_CHECK(Rd(w->last_announced) == dropped - announced, "%d spans were dropped and %d of these reported so far, but the next report says %d", dropped, announced, Rd(w->last_announced));
}
void Finish() {
  int64_t t0 = mc::virtual_now();
  int d0 = mc::deviations();
  delete w->rec;
  MC_CHECK(mc::deviations() > d0 || mc::virtual_now() - t0 <= kSlack, "destroying the recorder waits for the reporting period");
  MC_CHECK(Rd(w->destroyed), "the transport was leaked");
  MC_CHECK(mc::live_threads() == 0, "a thread outlives the recorder");
  int total = 0, dropped = 0, sent = 0, failed = 0;
  for (auto& s : w->slots) total += Rd(s.state) == 2, dropped += Rd(s.dropped), sent += Rd(s.sends);
  MC_CHECK(Rd(w->swapped) == sent, "%d spans counted as sent, %d were", Rd(w->swapped), sent);
  failed = Rd(w->total_dropped) - dropped;
  MC_CHECK(failed >= 0 && failed <= sent, "%d spans of failed reports counted", failed);
  mc::outcome("sent " + std::to_string(sent) + " of " + std::to_string(total) + " dropped " + std::to_string(Rd(w->total_dropped)) + " reports " + std::to_string(Rd(w->send_count)) + (Rd(w->stopped) ? " stopped" : ""));
}
}  // namespace

MC_THREADS(recorders, 3, 5) {
  World world;
  Options o;
  o.min_cap = o.max_cap = 1 + mc::choose(2, "capacity");
  o.slow = false;
  Start(world, o);
  std::thread a([] { Record(0, 0); Record(0, 2); }), b([] { Record(1, 1); Record(1, 3); });
  a.join();
  b.join();
  Settle(8);
  Finish();
}
MC_THREADS(flushers, 2, 3) {
  World world;
  Options o;
  o.min_cap = o.max_cap = 1 + mc::choose(2, "capacity");
  o.stop = false;
  static int64_t t0, t1;
  t0 = mc::choose(2, "time-out") ? kPeriod / 2 : 2 * kPeriod;
  t1 = mc::choose(2, "time-out") ? 0 : 2 * kPeriod;
  Start(world, o);
  std::thread a([] { Record(0, 0); Flush(t0); Record(0, 2); }), b([] { Record(1, 1); Flush(t1); });
  a.join();
  b.join();
  Settle(8);
  Finish();
}
// The recorder goes away at any moment: spans waiting, report in flight.
MC_THREADS(destroyed, 4, 6) {
  World world;
  Options o;
  o.min_cap = o.max_cap = 1 + mc::choose(3, "capacity");
  int spans = 1 + mc::choose(3, "spans"), f = mc::choose(3, "flush");
  Start(world, o);
  for (int i = 0; i < spans; ++i) {
    Record(0, i);
    if (f == 1 && !i) Flush(0);
    if (f == 2 && !i) Flush(2 * kPeriod);
  }
  Wr(world.stopped, Rd(world.stopped));
  Finish();
}
// The limit changes while spans are recorded.
MC_THREADS(dynamic_limit, 3, 5) {
  World world;
  Options o;
  o.min_cap = 1;
  o.max_cap = 3;
  o.stop = o.slow = false;
  static int first, second;
  first = 1 + mc::choose(3, "limit");
  second = 1 + mc::choose(3, "limit");
  Start(world, o);
  Wr(world.cap, first);
  std::thread a([] { for (int i = 0; i < 4; ++i) { if (i == 2) Wr(w->cap, second); Record(0, i); } });
  a.join();
  Settle(8);
  Finish();
}
// One thread only: what is sent when is determined.
MC_THREADS(histories, 2, 3) {
  World world;
  Options o;
  o.min_cap = o.max_cap = 1 + mc::choose(3, "capacity");
  o.stop = false;
  Start(world, o);
  int id = 0, steps = mc::thorough() ? 5 : 4;
  for (int i = 0; i < steps && id < kMaxSpans - 2; ++i) {
    int op = mc::choose(4, "operation");
    if (op == 0) Record(0, id++);
    if (op == 1) Flush(2 * kPeriod);
    if (op == 2) {  // let time pass
      int n = Rd(world.send_count), d = mc::deviations(), p = 0;
      for (int k = 0; k < id; ++k) p += !Rd(world.slots[k].dropped) && !Rd(world.slots[k].sends);
      mc::block_until_deadline([](void*) { return false; }, nullptr, mc::virtual_now() + 2 * kPeriod, "time passes");
      MC_CHECK(mc::deviations() > d || !p || Rd(world.send_count) > n, "two periods passed without a report of %d waiting spans", p);
    }
    if (op == 3) {
      // fill the buffer: the report starts without waiting for the period
      int n = Rd(world.send_count), d = mc::deviations();
      int64_t t0 = mc::virtual_now();
      while (id < kMaxSpans - 2 && !Rd(world.slots[id ? id - 1 : 0].dropped) && id < n + 9) {
        Record(0, id++);
        if (Rd(world.slots[id - 1].dropped) || world.PendingAtMost(-1) >= o.max_cap) break;
      }
      if (world.PendingAtMost(-1) >= o.max_cap) {
        static Int base;
        Wr(base, n);
        bool sent = mc::block_until_deadline([](void*) { return Rd(w->send_count) > Rd(base); }, nullptr, t0 + kPeriod / 10, "report of a full buffer");
        MC_CHECK(sent || mc::deviations() > d || Rd(world.in_send), "a full buffer is not sent before the period is over");
      }
    }
  }
  Settle(kMaxSpans - 1);
  Finish();
}
// Closing the tracer sends what is finished.
MC_THREADS(close, 3, 5) {
  World world;
  Options o;
  o.min_cap = o.max_cap = 2;
  o.stop = o.fail = false;
  Start(world, o);
  {
    std::shared_ptr<LegacyTracerImpl> t;
    {
      mc::NoPreempt np;
      t.reset(new LegacyTracerImpl(PropagationOptions{}, std::unique_ptr<Recorder>(world.rec)));
    }
    auto s = t->StartSpan("aA");
    Wr(world.current[0], 0);
    Wr(world.slots[0].state, 1);
    s->Finish();
    Wr(world.slots[0].state, 2);
    Wr(world.current[0], -1);
    int64_t t0 = mc::virtual_now();
    t->Close();
    MC_CHECK(Rd(world.slots[0].done) || mc::virtual_now() - t0 >= 10000000000ll, "the tracer was closed without sending a finished span");
    s.reset();
  }
  MC_CHECK(Rd(world.destroyed), "the transport was leaked");
  MC_CHECK(mc::live_threads() == 0, "a thread outlives the recorder");
}

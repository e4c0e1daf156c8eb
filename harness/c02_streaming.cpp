// mc: variant=asan skip=src/common/platform/network_unix.cpp
// C02/C03/C04: the streaming pipeline (span buffer, span stream, connection
// streams, gathered write) against every division of every write.
// The platform's vector limit is set to 4 so that one flush needs several writes.
#include <algorithm>
#include <cerrno>
#include <map>
#include <stdexcept>
#include <sys/uio.h>
#include "common/circular_buffer.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "network/vector_write.h"
#include "common/platform/network.h"
#include "recorder/metrics_tracker.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/span_stream.h"
#include "streams.h"
#include "wire_oracle.h"
using namespace lightstep;
namespace lightstep {
const int IoVecMax = 4;
IoVec MakeIoVec(void* data, size_t length) noexcept { return IoVec{data, length}; }
}  // namespace lightstep
namespace {
enum Cuts { kBoundaries, kEvery };
struct Sys {
  Cuts cuts = kBoundaries;
  int script_cut = -1;  // cut the total of this connection's bytes here, then answer `script_err`
  int script_err = 0;
  bool clean = false;  // accept everything
  std::map<int, std::string> wire;
  bool failed = false;
  size_t flush_bytes = 0;
} *sys;
}  // namespace
namespace lightstep {
int WriteV(FileDescriptor fd, const IoVec* v, int n) noexcept {
  MC_CHECK(n <= IoVecMax, "writev with %d vectors", n);
  std::string all;
  std::vector<size_t> points;
  for (int i = 0; i < n; ++i) {
    size_t len = v[i].iov_len;
    if (i) points.push_back(all.size());
    if (len > 1) { points.push_back(all.size() + 1); }
    if (len > 2) points.push_back(all.size() + len - 1);
    all.append((const char*)v[i].iov_base, len);
  }
  auto take = [&](size_t k) {
    sys->wire[fd] += all.substr(0, k);
    sys->flush_bytes += k;
    return (int)k;
  };
  auto err = [&](int e) {
    errno = e;
    if (e != EAGAIN) sys->failed = true;
    return -1;
  };
  if (sys->clean) return take(all.size());
  if (sys->script_cut >= 0) {
    if (sys->script_cut == 0 && sys->script_err) return err(sys->script_err);
    size_t k = std::min((size_t)sys->script_cut, all.size());
    sys->script_cut -= (int)k;
    if (k < all.size() && k == 0) return err(EAGAIN);
    return take(k);
  }
  // alternatives: everything; would block; hard error; a cut
  int c = mc::deviate(3 + (int)points.size(), "writev");
  if (c == 0) return take(all.size());
  if (c == 1) return err(EAGAIN);
  if (c == 2) return err(ECONNRESET);
  return take(points[c - 3]);
}
}  // namespace lightstep
namespace {
struct Observer : MetricsObserver {
  long sent = 0, dropped = 0;
  void OnSpansSent(int n) noexcept override { MC_CHECK(n >= 0, "negative sent count"); sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override {}
};
std::string SpanPayload(int id, int size) {
  collector::ReportRequest r;
  auto* s = r.add_spans();
  s->mutable_span_context()->set_span_id(id + 1);
  s->set_operation_name(Pattern(size, id).c_str());
  std::string name(size, 'x');
  for (int i = 0; i < size; ++i) name[i] = 'a' + (i * 5 + id) % 26;
  s->set_operation_name(name);
  return r.SerializeAsString();
}
struct World {
  Observer obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buf;
  SpanStream spans{buf, metrics};
  std::string host = "Host:satellite\r\n", common;
  std::vector<std::unique_ptr<ConnectionStream>> conns;
  struct Conn {
    int fd;
    bool broken = false, shutdown = false, completed = false;
  };
  std::vector<Conn> c;
  int next_fd = 10;
  Sys s;
  std::vector<std::string> recorded;  // payloads accepted by the buffer, in order
  long produced = 0, dropped_full = 0;
  std::map<int, int> owner;           // fd -> connection
  World(int cap, int nconn) : buf{(size_t)cap} {
    sys = &s;
    collector::ReportRequest h;
    h.mutable_reporter()->set_reporter_id(7);
    h.mutable_auth()->set_access_token("token");
    common = h.SerializeAsString();
    for (int i = 0; i < nconn; ++i) {
      conns.emplace_back(new ConnectionStream{Fragment{&host[0], (int)host.size()}, Fragment{&common[0], (int)common.size()}, spans});
      c.push_back({next_fd++});
    }
  }
  void Add(int size) {
    int id = (int)produced++;
    std::string p = SpanPayload(id, size);
    char h[32];
    snprintf(h, sizeof h, "%zX\r\n", p.size());
    auto st = MakeChained(std::string(h) + p + "\r\n");
    if (buf.Add(st)) recorded.push_back(p);
    else { metrics.OnSpansDropped(1); ++dropped_full; }
    mc::log("add span %d (%zu bytes)%s", id, p.size(), st ? " dropped: full" : "");
  }
  void Flush(int i) {
    MC_CHECK(!c[i].broken, "harness");
    s.failed = false;
    s.flush_bytes = 0;
    bool threw = false, r = false;
    size_t pending_after = 1;
    try {
      r = conns[i]->Flush([&](std::initializer_list<FragmentInputStream*> ss) { return Write(c[i].fd, ss); });
    } catch (const std::runtime_error&) {
      threw = true;
    }
    (void)pending_after;
    MC_CHECK(threw == s.failed, "error of the socket %s", threw ? "invented" : "swallowed");
    if (threw) c[i].broken = true;
    mc::log("flush %d: %zu bytes -> %s", i, s.flush_bytes, threw ? "error" : r ? "all" : "partial");
    if (!threw) {
      // true means nothing of this connection or the buffer is left to write
      if (r) {
        if (!c[i].shutdown) MC_CHECK(buf.empty(), "flush reports everything written with %zu spans waiting", buf.size());
        auto w = ReadWire(s.wire[c[i].fd], "flushed connection");
        MC_CHECK(w.head_complete && !w.in_chunk, "flush reports everything written in the middle of the stream");
        MC_CHECK(w.terminated == c[i].shutdown, "flush complete, terminating chunk %s", w.terminated ? "sent without shutdown" : "missing after shutdown");
      }
    }
    Invariants();
  }
  void Shutdown(int i) {
    conns[i]->Shutdown();
    c[i].shutdown = true;
    MC_CHECK(conns[i]->shutting_down(), "shutting_down() false after Shutdown");
    mc::log("shutdown %d", i);
  }
  void Reset(int i) {
    conns[i]->Reset();
    c[i] = Conn{next_fd++};
    MC_CHECK(!conns[i]->shutting_down() && !conns[i]->completed(), "a reset stream is still shutting down or completed");
    mc::log("reset %d -> descriptor %d", i, c[i].fd);
    Invariants();
  }
  uint64_t Invariants() {
    uint64_t h = buf.size();
    std::vector<int> seen(recorded.size(), 0);
    long complete = 0, partial_live = 0, partial_dead = 0, announced = 0;
    long max_touched = -1, touched = 0;
    std::vector<std::pair<std::string, int>> partial;
    for (auto& w : s.wire) {
      char who[32];
      snprintf(who, sizeof who, "connection %d", w.first);
      auto r = ReadWire(w.second, who);
      if (r.head_complete) MC_CHECK(r.host == "satellite", "%s: host \"%s\"", who, r.host.c_str());
      int live = -1;
      for (size_t i = 0; i < c.size(); ++i)
        if (c[i].fd == w.first) live = (int)i;
      long last = -1;
      for (size_t k = 0; k < r.chunks.size(); ++k) {
        if (k == 0) {
          collector::ReportRequest rr;
          MC_CHECK(rr.ParseFromString(r.chunks[0]), "%s: the first chunk does not parse", who);
          MC_CHECK(r.chunks[0].compare(0, common.size(), common) == 0 && rr.spans_size() == 0, "%s: the first chunk is not the report header", who);
          long n = 0;
          for (auto& x : rr.internal_metrics().counts())
            if (x.name() == "spans.dropped") n += x.int_value();
          MC_CHECK(n >= 0, "%s: announces %ld dropped spans", who, n);
          announced += n;
          continue;
        }
        long id = -1;
        for (size_t j = 0; j < recorded.size(); ++j)
          if (recorded[j] == r.chunks[k]) id = (long)j;
        MC_CHECK(id >= 0, "%s: chunk %zu is not one of the recorded spans", who, k);
        MC_CHECK(id > last, "%s: span %ld sent after span %ld", who, id, last);
        last = id;
        MC_CHECK(!seen[id], "span %ld is sent twice", id);
        seen[id] = 1;
        ++complete;
        ++touched;
        max_touched = std::max(max_touched, id);
      }
      if (r.in_chunk && r.chunks.size() >= 1) {
        // a started span, or the terminating chunk
        std::string tail = Tail(w.second, r);
        if (!Prefix(tail, "0\r\n\r\n")) {
          partial.push_back({tail, live});
          MC_CHECK(!(live >= 0 && conns[live]->completed()), "%s: completed in the middle of a span", who);
        }
      }
      if (live >= 0) {
        MC_CHECK(conns[live]->completed() == r.terminated, "%s: completed() is %d, terminating chunk %s", who, conns[live]->completed(),
                 r.terminated ? "sent" : "not sent");
        if (r.terminated) MC_CHECK(c[live].shutdown, "%s: terminated without a shutdown", who);
      }
      h = mc::mix(h, w.second.size() + (live + 1) * 100000);
    }
    // attribute started spans, the most specific first (their candidates are nested or disjoint)
    std::stable_sort(partial.begin(), partial.end(), [](const std::pair<std::string, int>& a, const std::pair<std::string, int>& b) { return a.first.size() > b.first.size(); });
    for (auto& p : partial) {
      long id = -1;
      for (size_t j = 0; j < recorded.size() && id < 0; ++j)
        if (!seen[j] && Prefix(p.first, Frame(recorded[j]))) id = (long)j;
      MC_CHECK(id >= 0, "an unfinished chunk is not the beginning of an unsent span");
      ++touched;
      max_touched = std::max(max_touched, id);
      seen[id] = 2;
      ++(p.second >= 0 ? partial_live : partial_dead);
    }
    // spans leave in recorded order: exactly the oldest `touched` ones have been started
    MC_CHECK(max_touched + 1 == touched, "a span was started before an older one (%ld started, newest is %ld)", touched, max_touched);
    MC_CHECK(touched + (long)buf.size() == (long)recorded.size(), "%ld spans started, %zu waiting, %zu recorded", touched, buf.size(), recorded.size());
    MC_CHECK(obs.sent == complete, "%ld spans counted as sent, %ld are completely on the wire", obs.sent, complete);
    MC_CHECK(obs.dropped == dropped_full + partial_dead, "%ld spans counted as dropped, %ld refused and %ld cut off", obs.dropped, dropped_full, partial_dead);
    MC_CHECK(announced + metrics.num_dropped_spans() <= obs.dropped, "%ld drops announced and %d pending, %ld happened", announced,
             metrics.num_dropped_spans(), obs.dropped);
    announced_ = announced;
    h = mc::mix(h, obs.sent * 31 + obs.dropped);
    mc::state(h);
    mc::evaluated();
    return h;
  }
  long announced_ = 0;
  static bool Prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
  static std::string Frame(const std::string& p) {
    char h[32];
    snprintf(h, sizeof h, "%zX\r\n", p.size());
    return std::string(h) + p + "\r\n";
  }
  // bytes after the last complete chunk
  static std::string Tail(const std::string& s, const WireResult& r) {
    size_t i = s.find("\r\n\r\n") + 4;
    for (auto& ch : r.chunks) {
      i = s.find("\r\n", i) + 2 + ch.size() + 2;
    }
    return s.substr(i);
  }
  // let everything that is still deliverable be delivered, then settle the account
  void Drain() {
    s.clean = true;
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i].broken || conns[i]->completed()) Reset((int)i);
    for (int round = 0; round < 2; ++round)
      for (size_t i = 0; i < c.size(); ++i)
        if (!conns[i]->completed()) Flush((int)i);
    for (size_t i = 0; i < c.size(); ++i) {
      // a shut down connection does not take from the buffer
      if (conns[i]->completed()) { Reset((int)i); Flush((int)i); }
    }
    MC_CHECK(buf.empty(), "%zu spans remain after flushing everything", buf.size());
    MC_CHECK(obs.sent + obs.dropped == produced, "%ld sent + %ld dropped, %ld produced", obs.sent, obs.dropped, produced);
    MC_CHECK(announced_ + metrics.num_dropped_spans() == obs.dropped, "%ld drops announced and %d pending, %ld happened", announced_,
             metrics.num_dropped_spans(), obs.dropped);
    mc::outcome(std::to_string(obs.sent) + "/" + std::to_string(obs.dropped) + "/" + std::to_string(announced_));
  }
};
void History(int nconn, int cap, int depth, std::vector<int> sizes) {
  World w{cap, nconn};
  int k = 0;
  for (int step = 0; step < depth; ++step) {
    std::vector<std::pair<int, int>> ops{{0, 0}};
    for (int i = 0; i < nconn; ++i) {
      bool done = w.conns[i]->completed();
      if (!w.c[i].broken && !done) ops.push_back({1, i});
      if (!w.c[i].broken && !w.c[i].shutdown) ops.push_back({2, i});
      ops.push_back({3, i});
    }
    auto op = ops[mc::choose((int)ops.size(), "op")];
    switch (op.first) {
      case 0: w.Add(sizes[k++ % sizes.size()]); break;
      case 1: w.Flush(op.second); break;
      case 2: w.Shutdown(op.second); break;
      default: w.Reset(op.second);
    }
  }
  w.Drain();
}
}  // namespace
// histories of operations on two connections sharing the buffer; cuts and errors are deviations
MC_SCENARIO(two_connections, 1, 2) { History(2, 2, mc::thorough() ? 5 : 5, {0, 2, 300}); }
MC_SCENARIO(one_connection, 2, 3) { History(1, 2, mc::thorough() ? 7 : 6, {1, 270, 0}); }
// every byte position at which the stream of one connection can be cut, with each continuation
MC_SCENARIO(every_cut, 0, 0) {
  World w{3, 2};
  static const int sz[][3] = {{0, 3, 1}, {260, 1, 0}, {235, 600, 2}};
  int which = mc::choose(3, "sizes");
  for (int i = 0; i < 3; ++i) w.Add(sz[which][i]);
  int late = mc::choose(2, "late");
  if (late) w.Add(1);  // refused: full
  // measure the total first
  size_t total = w.host.size() + 400;
  for (auto& r : w.recorded) total += World::Frame(r).size();
  w.s.script_cut = mc::choose((int)total, "cut");
  w.s.script_err = mc::choose(2, "err") ? EPIPE : 0;
  int pre = mc::choose(2, "shutdown before");
  if (pre) { w.Flush(0); if (!w.c[0].broken) w.Shutdown(0); }
  if (!w.c[0].broken) w.Flush(0);
  w.s.script_cut = -1;
  w.s.clean = true;
  int then = mc::choose(5, "then");
  if (then == 1 && !w.c[0].broken && !w.conns[0]->completed()) w.Flush(0);
  if (then == 2) w.Reset(0);
  if (then == 3) w.Flush(1);
  if (then == 4 && !w.c[0].broken) { w.Shutdown(0); if (!w.conns[0]->completed()) w.Flush(0); }
  w.Add(2);
  w.Drain();
}
// two cuts at every pair of positions within the spans, small sizes
MC_SCENARIO(two_cuts, 0, 0) {
  World w{3, 2};
  w.s.clean = true;
  w.Flush(0);
  w.s.clean = false;
  w.Add(0);
  w.Add(1);
  size_t total = 0;
  for (auto& r : w.recorded) total += World::Frame(r).size();
  int a = mc::choose((int)total + 1, "cut 1");
  w.s.script_cut = a;
  w.s.script_err = mc::choose(2, "err") ? EPIPE : 0;
  w.Flush(0);
  if (w.c[0].broken) w.Reset(0);
  w.Add(2);
  int b = mc::choose((int)total + 1, "cut 2");
  w.s.script_cut = b;
  w.s.script_err = mc::choose(2, "err 2") ? EPIPE : 0;
  w.Flush(mc::choose(2, "which"));
  w.s.script_cut = -1;
  w.Drain();
}

// The account of spans over everything ever written to satellites, judged
// from the bytes on the wire (see c02_streaming.cpp for the streams alone).
#pragma once
#include <algorithm>
#include <string>
#include <vector>
#include "common/circular_buffer.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "recorder/metrics_tracker.h"
#include "streams.h"
#include "wire_oracle.h"

struct CountingObserver : lightstep::MetricsObserver {
  long sent = 0, dropped = 0, flushes = 0;
  void OnSpansSent(int n) noexcept override {
    MC_CHECK(n >= 0, "negative sent count");
    sent += n;
  }
  void OnSpansDropped(int n) noexcept override {
    MC_CHECK(n >= 0, "negative dropped count");
    dropped += n;
  }
  void OnFlush() noexcept override { ++flushes; }
};
inline std::string SpanPayload(int id, int size) {
  lightstep::collector::ReportRequest r;
  auto* s = r.add_spans();
  s->mutable_span_context()->set_span_id(id + 1);
  std::string name(size, 'x');
  for (int i = 0; i < size; ++i) name[i] = 'a' + (i * 5 + id) % 26;
  s->set_operation_name(name);
  return r.SerializeAsString();
}
inline std::string FrameChunk(const std::string& p) {
  char h[32];
  snprintf(h, sizeof h, "%zX\r\n", p.size());
  return std::string(h) + p + "\r\n";
}
// what one connection wrote
struct WireView {
  std::string who;
  const std::string* bytes;
  bool live;  // the connection is still in use
  std::string host;
};
struct StreamAccount {
  std::vector<std::string> recorded;  // payloads accepted by the buffer, in order
  long refused = 0;                   // spans dropped because the buffer was full
  long announced = 0, complete = 0, cut = 0, started = 0;
  long cleared_before = 0;  // spans recorded before this one were thrown away unsent (after a fork, in the child)
  static bool Prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
  static std::string Tail(const std::string& s, const WireResult& r) {
    size_t i = s.find("\r\n\r\n") + 4;
    for (auto& ch : r.chunks) i = s.find("\r\n", i) + 2 + ch.size() + 2;
    return s.substr(i);
  }
  // reads every connection and settles which span went where
  uint64_t Read(const std::vector<WireView>& wires, const std::string& token) {
    announced = complete = cut = started = 0;
    long newest = -1;
    uint64_t h = 0;
    std::vector<int> seen(recorded.size(), 0);
    std::vector<std::pair<std::string, int>> partial;
    for (auto& w : wires) {
      const char* who = w.who.c_str();
      auto r = ReadWire(*w.bytes, who);
      if (r.head_complete && !w.host.empty()) MC_CHECK(r.host == w.host, "%s: host \"%s\" for \"%s\"", who, r.host.c_str(), w.host.c_str());
      long last = -1;
      for (size_t k = 0; k < r.chunks.size(); ++k) {
        if (k == 0) {
          lightstep::collector::ReportRequest rr;
          MC_CHECK(rr.ParseFromString(r.chunks[0]), "%s: the first chunk does not parse", who);
          MC_CHECK(rr.spans_size() == 0 && rr.auth().access_token() == token, "%s: the first chunk is not the report header", who);
          for (auto& x : rr.internal_metrics().counts())
            if (x.name() == "spans.dropped") {
              MC_CHECK(x.int_value() >= 0, "%s: announces %ld dropped spans", who, (long)x.int_value());
              announced += (long)x.int_value();
            }
          continue;
        }
        long id = -1;
        for (size_t j = 0; j < recorded.size(); ++j)
          if (recorded[j] == r.chunks[k]) id = (long)j;
        MC_CHECK(id >= 0, "%s: chunk %zu is not one of the recorded spans", who, k);
        MC_CHECK(id >= cleared_before, "%s: sends span %ld, which was to be forgotten", who, id);
        MC_CHECK(id > last, "%s: span %ld sent after span %ld", who, id, last);
        last = id;
        MC_CHECK(!seen[id], "span %ld is sent twice", id);
        seen[id] = 1;
        ++complete;
        newest = std::max(newest, id);
      }
      if (r.in_chunk && r.chunks.size() >= 1) {
        std::string tail = Tail(*w.bytes, r);
        if (!Prefix(tail, "0\r\n\r\n")) partial.push_back({tail, w.live});
      }
      h = mc::mix(h, w.bytes->size() * 2 + w.live);
    }
    std::stable_sort(partial.begin(), partial.end(), [](const std::pair<std::string, int>& a, const std::pair<std::string, int>& b) { return a.first.size() > b.first.size(); });
    started = complete;
    for (auto& p : partial) {
      long id = -1;
      for (size_t j = (size_t)cleared_before; j < recorded.size() && id < 0; ++j)
        if (!seen[j] && Prefix(p.first, FrameChunk(recorded[j]))) id = (long)j;
      MC_CHECK(id >= 0, "an unfinished chunk is not the beginning of an unsent span");
      ++started;
      newest = std::max(newest, id);
      seen[id] = 2;
      if (!p.second) ++cut;
    }
    if (started) MC_CHECK(newest + 1 == started + cleared_before, "a span was started before an older one (%ld started, newest is %ld)", started, newest);
    return mc::mix(h, started * 64 + recorded.size());
  }
};

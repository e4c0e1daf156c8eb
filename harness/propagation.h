// Carriers whose strings live in exactly sized heap blocks, and an independent
// account of what each propagation format says about a carrier's content.
#pragma once
#include <google/protobuf/stubs/logging.h>
#include <strings.h>
#include <functional>
#include <set>
#include <sstream>
#include "lightstep-tracer-common/lightstep_carrier.pb.h"
#include "spans.h"
#include "tracer/immutable_span_context.h"
namespace prop {
using namespace spans;
auto* const kQuiet = google::protobuf::SetLogHandler(nullptr);
typedef std::map<std::string, std::string> Bag;
typedef std::vector<std::pair<std::string, std::string>> Headers;
struct Block {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Block(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  opentracing::string_view v() const { return {p.get(), n}; }
  std::string s() const { return std::string(p.get(), n); }
};
inline bool IEq(const std::string& a, const std::string& b) { return a.size() == b.size() && strncasecmp(a.c_str(), b.c_str(), a.size()) == 0; }
// Reader is opentracing::TextMapReader or HTTPHeadersReader.
template <class Reader>
struct In : Reader {
  std::vector<std::pair<Block, Block>> h;
  bool lookup, http;
  In(const Headers& hs, bool lookup_, bool http_) : lookup(lookup_), http(http_) { for (auto& x : hs) h.emplace_back(Block(x.first), Block(x.second)); }
  opentracing::expected<opentracing::string_view> LookupKey(opentracing::string_view key) const override {
    if (!lookup) return opentracing::make_unexpected(opentracing::lookup_key_not_supported_error);
    for (auto& x : h)
      if (http ? IEq(x.first.s(), std::string(key)) : x.first.s() == std::string(key)) return x.second.v();
    return opentracing::make_unexpected(opentracing::key_not_found_error);
  }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& x : h) { auto r = f(x.first.v(), x.second.v()); if (!r) return r; }
    return {};
  }
};
template <class Writer>
struct Out : Writer {
  mutable Headers h;
  mutable int calls = 0;
  int fail_at = -1;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    if (calls++ == fail_at) return opentracing::make_unexpected(std::make_error_code(std::errc::no_space_on_device));
    h.emplace_back(std::string(k), std::string(v));
    return {};
  }
};
struct Context {
  uint64_t high = 0, low = 0, span = 0;
  int flags = 0;
  std::set<std::string> states;  // any of these is right ("" alone if none)
  std::map<std::string, std::set<std::string>> baggage;  // any of these values
  std::set<int> flag_choices;  // if not empty: any of these
  std::vector<uint64_t> other_spans;
};
// kNone: nothing found; kError: corrupted; kContext; kAny: no rule
enum Verdict { kNone, kError, kContext, kErrorOrContext, kAny };
inline int Hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline bool HexAny(const std::string& t, uint64_t& high, uint64_t& low, size_t max) {
  size_t a = 0, b = t.size();
  while (a < b && isspace((unsigned char)t[a])) ++a;
  while (b > a && isspace((unsigned char)t[b - 1])) --b;
  if (a == b) return false;
  for (size_t i = a; i < b; ++i) if (Hex(t[i]) < 0) return false;
  while (a < b && t[a] == '0') ++a;
  if (b - a > max) return false;
  high = low = 0;
  for (; a < b; ++a) { high = high << 4 | low >> 60; low = low << 4 | Hex(t[a]); }
  return true;
}
inline bool HexFixed(const std::string& t, size_t at, size_t n, uint64_t& v) {
  v = 0;
  for (size_t i = at; i < at + n; ++i) { int h = Hex(t[i]); if (h < 0) return false; v = v << 4 | h; }
  return true;
}
inline std::string Lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c |= 32; return s; }
struct Rules {
  bool http, lookup;
  bool Key(const std::string& k, const char* want) const { return http ? IEq(k, want) : k == want; }
  void Baggage(const Headers& h, Context& c) const {
    const std::string p = "ot-baggage-";
    for (auto& x : h)
      if (x.first.size() > p.size() && Key(x.first.substr(0, p.size()), p.c_str())) c.baggage[Lower(x.first.substr(p.size()))].insert(x.second);
  }
  Verdict Multi(const Headers& h, const char* t, const char* s, const char* sampled, Context& c) const {
    int nt = 0, ns = 0;
    for (auto& x : h) {
      if (Key(x.first, t)) { ++nt; if (!HexAny(x.second, c.high, c.low, 32)) return kError; }
      else if (Key(x.first, s)) { uint64_t z; ++ns; if (!HexAny(x.second, z, c.span, 16)) return kError; }
      else if (Key(x.first, sampled)) c.flag_choices.insert(!(x.second == "0" || x.second == "false"));
    }
    if (c.flag_choices.empty()) c.flag_choices.insert(1);
    Baggage(h, c);
    if (!nt && !ns) return kNone;
    if (!nt || !ns) return kError;
    return nt == 1 && ns == 1 ? kContext : kError;  // an id is given once
  }
  Verdict TraceContext(const Headers& h, Context& c) const {
    int n = 0;
    for (auto& x : h) {
      if (Key(x.first, "traceparent")) {
        auto& v = x.second;
        uint64_t ver, fl;
        ++n;
        if (v.size() < 55 || v[2] != '-' || v[35] != '-' || v[52] != '-' || !HexFixed(v, 0, 2, ver) || !HexFixed(v, 3, 16, c.high) || !HexFixed(v, 19, 16, c.low) || !HexFixed(v, 36, 16, c.span) || !HexFixed(v, 53, 2, fl)) return kError;
        c.flags = (int)fl;
      } else if (Key(x.first, "tracestate")) c.states.insert(x.second);
    }
    if (c.states.size() > 1) { std::string j; for (auto& x : h) if (Key(x.first, "tracestate")) j += (j.empty() ? "" : ",") + x.second; c.states.insert(j); }
    Baggage(h, c);
    return n == 0 ? kNone : n == 1 ? kContext : kErrorOrContext;
  }
  Verdict Cloud(const Headers& h, Context& c) const {
    int n = 0;
    for (auto& x : h)
      if (Key(x.first, "x-cloud-trace-context")) {
        auto& v = x.second;
        ++n;
        if (v.size() < 32 || !HexFixed(v, 0, 16, c.high) || !HexFixed(v, 16, 16, c.low)) return kError;
        c.span = 0;
        c.flags = 1;
        if (v.size() == 32) continue;
        if (v[32] != '/') { if (v.size() == 33) { Baggage(h, c); return kErrorOrContext; } return kError; }
        size_t i = 33;
        bool over = false;
        for (; i < v.size() && v[i] >= '0' && v[i] <= '9'; ++i) {
          unsigned __int128 s = (unsigned __int128)c.span * 10 + (v[i] - '0');
          if (s >> 64) over = true;
          c.span = (uint64_t)s;
        }
        if (over) return kError;
        if (i - 33 > 20) { c.flag_choices = {0, 1}; Baggage(h, c); return kErrorOrContext; }
        if (i == v.size()) { if (i == 33) { Baggage(h, c); return kErrorOrContext; } continue; }
        std::string rest = v.substr(i);
        if (rest.size() == 4 && rest.compare(0, 3, ";o=") == 0 && (rest[3] == '0' || rest[3] == '1')) { c.flags = rest[3] == '1'; if (i == 33) { Baggage(h, c); return kErrorOrContext; } continue; }
        if (rest.size() >= 4 && rest.compare(0, 3, ";o=")) return kError;
        // other options, or fewer than four characters of them: tolerated or refused
        if (rest.size() >= 4) c.flags = rest[3] != '0';
        Baggage(h, c);
        return kErrorOrContext;
      }
    Baggage(h, c);
    return n == 0 ? kNone : n == 1 ? kContext : kErrorOrContext;
  }
  static int B64(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
  static bool Base64(const std::string& s, std::string& out, bool& loose) {
    loose = false;
    if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4) {
      int pad = i + 4 == s.size() ? (s[i + 3] == '=') + (s[i + 3] == '=' && s[i + 2] == '=') : 0;
      uint32_t v = 0;
      for (int k = 0; k < 4; ++k) { int d = k >= 4 - pad ? 0 : B64(s[i + k]); if (d < 0) return false; v = v << 6 | d; }
      if (v & ((1u << 8 * pad) - 1)) loose = true;
      for (int k = 0; k < 3 - pad; ++k) out.push_back((char)(v >> (16 - 8 * k)));
    }
    return true;
  }
  static Verdict Binary(const std::string& bytes, Context& c) {
    lightstep::BinaryCarrier b;
    if (!b.ParseFromString(bytes)) return kError;
    c.high = 0;
    c.low = b.basic_ctx().trace_id();
    c.span = b.basic_ctx().span_id();
    c.flags = b.basic_ctx().sampled();
    for (auto& x : b.basic_ctx().baggage_items()) c.baggage[Lower(x.first)].insert(x.second);
    return kContext;
  }
  Verdict Envoy(const Headers& h, Context& c) const {
    const std::string* v = nullptr;
    for (auto& x : h)
      if (Key(x.first, "x-ot-span-context")) { v = &x.second; break; }
    if (!v) return kNone;
    std::string bytes;
    bool loose;
    if (!Base64(*v, bytes, loose)) return kError;
    if (bytes.empty()) return kError;
    Verdict r = Binary(bytes, c);
    // unused bits that are not zero: refused or ignored
    return loose && r == kContext ? kErrorOrContext : r;
  }
  Verdict Mode(PropagationMode m, const Headers& h, Context& c) const {
    switch (m) {
      case PropagationMode::lightstep: return Multi(h, "ot-tracer-traceid", "ot-tracer-spanid", "ot-tracer-sampled", c);
      case PropagationMode::b3: return Multi(h, "X-B3-TraceId", "X-B3-SpanId", "X-B3-Sampled", c);
      case PropagationMode::envoy: return Envoy(h, c);
      case PropagationMode::trace_context: return TraceContext(h, c);
      default: return Cloud(h, c);
    }
  }
  Verdict Modes(const std::vector<PropagationMode>& ms, const Headers& h, Context& c) const {
    for (auto m : ms) {
      c = Context{};
      Verdict v = Mode(m, h, c);
      if (v == kNone && m == PropagationMode::envoy) { c = Context{}; v = Mode(PropagationMode::lightstep, h, c); }
      if (v != kNone) return v;
    }
    return kNone;
  }
};
inline std::string Show(const Headers& h) {
  std::string s;
  for (auto& x : h) {
    s += x.first + ": ";
    for (unsigned char c : x.second) { char b[8]; if (c >= 32 && c < 127) s += c; else { snprintf(b, sizeof b, "\\x%02x", c); s += b; } }
    s += " | ";
  }
  return s;
}
inline void CheckContext(const opentracing::SpanContext& got, const Context& want, const std::string& what) {
  auto& g = Ctx(got);
  MC_CHECK(g.trace_id_high() == want.high && g.trace_id_low() == want.low, "%s: trace id %016llx%016llx, expected %016llx%016llx", what.c_str(), (unsigned long long)g.trace_id_high(), (unsigned long long)g.trace_id_low(), (unsigned long long)want.high, (unsigned long long)want.low);
  MC_CHECK(g.span_id() == want.span, "%s: span id %llx, expected %llx", what.c_str(), (unsigned long long)g.span_id(), (unsigned long long)want.span);
  if (want.flag_choices.empty()) MC_CHECK(g.trace_flags() == want.flags, "%s: flags %d, expected %d", what.c_str(), g.trace_flags(), want.flags);
  else MC_CHECK(want.flag_choices.count(g.trace_flags()), "%s: flags %d", what.c_str(), g.trace_flags());
  std::string ts(g.trace_state());
  MC_CHECK(want.states.empty() ? ts.empty() : want.states.count(ts), "%s: trace state \"%s\"", what.c_str(), ts.c_str());
  Bag b;
  got.ForeachBaggageItem([&](const std::string& k, const std::string& v) { b[k] = v; return true; });
  for (auto& x : want.baggage) {
    MC_CHECK(b.count(x.first), "%s: baggage \"%s\" not recovered", what.c_str(), x.first.c_str());
    MC_CHECK(x.second.count(b[x.first]), "%s: baggage \"%s\" is \"%s\"", what.c_str(), x.first.c_str(), b[x.first].c_str());
  }
  MC_CHECK(b.size() == want.baggage.size(), "%s: %zu baggage items, expected %zu", what.c_str(), b.size(), want.baggage.size());
  // fingerprint: the recovered context
  uint64_t f = 1469598103934665603ull;
  auto mix = [&](const std::string& x) { for (unsigned char c : x) f = (f ^ c) * 1099511628211ull; f = (f ^ 256) * 1099511628211ull; };
  mix(std::to_string(g.trace_id_high()) + "/" + std::to_string(g.trace_id_low()) + "/" + std::to_string(g.span_id()) + "/" + std::to_string(g.trace_flags()));
  mix(ts);
  for (auto& x : b) mix(x.first), mix(x.second);
  mc::state(f);
}
inline opentracing::expected<std::unique_ptr<opentracing::SpanContext>> Extract(const LightStepTracer& t, const Headers& h, bool http, bool lookup) {
  if (http) return t.Extract(static_cast<const opentracing::HTTPHeadersReader&>(In<opentracing::HTTPHeadersReader>{h, lookup, true}));
  return t.Extract(static_cast<const opentracing::TextMapReader&>(In<opentracing::TextMapReader>{h, lookup, false}));
}
inline std::shared_ptr<LightStepTracer> MakeTracer(bool legacy, const std::vector<PropagationMode>& modes, bool single_key = false) {
  LightStepTracerOptions o;
  o.propagation_modes = modes;
  o.use_single_key_propagation = single_key;
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  if (legacy) return std::make_shared<LegacyTracerImpl>(logger, MakePropagationOptions(o), std::unique_ptr<Recorder>{new Recorder});
  return std::make_shared<TracerImpl>(logger, MakePropagationOptions(o), std::unique_ptr<Recorder>{new Recorder});
}
const PropagationMode kModes[] = {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace};
}  // namespace prop

// mc: variant=asan
// C20: extraction of every small carrier content by every list of formats.
#include "propagation.h"
using namespace prop;
using opentracing::make_unexpected;
namespace {
const std::string kT32 = "0123456789abcdef00000000000000fe";
std::string Encode(const std::string& bytes) {
  static const char* d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < bytes.size(); i += 3) {
    uint32_t v = 0;
    size_t n = std::min<size_t>(3, bytes.size() - i);
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)bytes[i + k] : 0);
    for (size_t k = 0; k < 4; ++k) r += k <= n ? d[v >> (18 - 6 * k) & 63] : '=';
  }
  return r;
}
std::string Proto(uint64_t trace, uint64_t span, bool sampled, const Bag& bag) {
  BinaryCarrier b;
  auto& x = *b.mutable_basic_ctx();
  x.set_trace_id(trace);
  x.set_span_id(span);
  x.set_sampled(sampled);
  for (auto& e : bag) (*x.mutable_baggage_items())[e.first] = e.second;
  return b.SerializeAsString();
}
std::vector<std::vector<PropagationMode>> ModeLists(int max) {
  std::vector<std::vector<PropagationMode>> r, last{{}};
  for (int n = 1; n <= max; ++n) {
    std::vector<std::vector<PropagationMode>> next;
    for (auto& l : last)
      for (auto m : kModes) { auto x = l; x.push_back(m); next.push_back(x); }
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}
std::string Names(const std::vector<PropagationMode>& m) {
  std::string s;
  const char* n[] = {"lightstep", "b3", "envoy", "trace_context", "cloud"};
  for (auto x : m)
    for (int i = 0; i < 5; ++i)
      if (kModes[i] == x) s += std::string(s.empty() ? "" : "+") + n[i];
  return s;
}
struct Env {
  std::vector<PropagationMode> modes;
  std::shared_ptr<LightStepTracer> tracer;
  bool http, lookup, legacy;
  Env(std::vector<PropagationMode> m, bool h, bool l, bool legacy_) : modes(m), tracer(MakeTracer(legacy_, m)), http(h), lookup(l), legacy(legacy_) {}
  void Judge(Verdict v, const Context& want, const opentracing::expected<std::unique_ptr<opentracing::SpanContext>>& got, const std::string& what) {
    mc::evaluated();
    if (v == kAny) return;
    if (!got) {
      MC_CHECK(v == kError || v == kErrorOrContext, "%s: refused (%s), but it %s", what.c_str(), got.error().message().c_str(), v == kNone ? "holds no context" : "is valid");
      return;
    }
    if (!*got) {
      MC_CHECK(v == kNone, "%s: no context found, but it %s", what.c_str(), v == kError ? "is corrupted" : "holds one");
      return;
    }
    MC_CHECK(v == kContext || v == kErrorOrContext, "%s: a context (trace %llx span %llx) came out, but it %s", what.c_str(), (unsigned long long)Ctx(**got).trace_id_low(), (unsigned long long)Ctx(**got).span_id(), v == kNone ? "holds none" : "is corrupted");
    CheckContext(**got, want, what);
  }
  void Run(const Headers& h) {
    Context want;
    Verdict v = Rules{http, lookup}.Modes(modes, h, want);
    Judge(v, want, Extract(*tracer, h, http, lookup), Names(modes) + (http ? " http" : " text") + (lookup ? " lookup" : "") + (legacy ? " legacy" : "") + ": " + Show(h));
  }
};
const Headers& Alphabet() {
  static const Headers a = {
      {"ot-tracer-traceid", "1f"},
      {"ot-tracer-traceid", "zz"},
      {"ot-tracer-spanid", "2e"},
      {"OT-Tracer-SpanId", "3e"},
      {"ot-tracer-sampled", "false"},
      {"ot-tracer-sampled", "0"},
      {"ot-baggage-key", "v"},
      {"Ot-Baggage-KeY", "w"},
      {"ot-baggage-", "x"},
      {"X-B3-TraceId", kT32},
      {"x-b3-traceid", "77"},
      {"X-B3-SpanId", "6"},
      {"X-B3-SpanId", ""},
      {"X-B3-Sampled", "0"},
      {"traceparent", "00-" + kT32 + "-00000000000000aa-02"},
      {"TraceParent", "00-" + kT32 + "-00000000000000ab-01"},
      {"traceparent", "00-" + kT32 + "-00000000000000aa-0"},
      {"tracestate", "a=b"},
      {"TRACESTATE", "c=d"},
      {"x-cloud-trace-context", kT32 + "/99;o=0"},
      {"x-cloud-trace-context", kT32},
      {"x-cloud-trace-context", kT32.substr(1)},
      {"x-ot-span-context", Encode(Proto(0x11, 0x22, false, {{"Q", "r"}}))},
      {"x-ot-span-context", "!!!!"},
      {"unrelated", "1"}};
  return a;
}
void Subsets() {
  auto lists = ModeLists(2);
  int m = mc::choose((int)lists.size(), "formats");
  bool legacy = mc::choose(2, "legacy"), http = mc::choose(2, "http"), lookup = mc::choose(2, "lookup");
  Env e(lists[m], http, lookup, legacy);
  auto& a = Alphabet();
  int n = (int)a.size();
  e.Run({});
  for (int i = 0; i < n; ++i) {
    e.Run({a[i]});
    for (int j = 0; j < n; ++j) {
      e.Run({a[i], a[j]});
      for (int k = 0; k < n; ++k) e.Run({a[i], a[j], a[k]});
    }
  }
}
// Longer contents: every selection (in one order and its reverse) of up to
// five entries.
void Selections() {
  auto lists = ModeLists(1);
  for (auto& l : ModeLists(2)) if (l.size() == 2 && (l[0] == PropagationMode::trace_context || l[0] == PropagationMode::b3)) lists.push_back(l);
  int m = mc::choose((int)lists.size(), "formats");
  bool http = mc::choose(2, "http");
  Env e(lists[m], http, false, false);
  auto& a = Alphabet();
  int n = (int)a.size();
  int first = mc::choose(n, "first");
  std::function<void(Headers&, int, int)> go = [&](Headers& h, int at, int left) {
    e.Run(h);
    Headers r(h.rbegin(), h.rend());
    e.Run(r);
    if (!left) return;
    for (int i = at; i < n; ++i) { h.push_back(a[i]); go(h, i + 1, left - 1); h.pop_back(); }
  };
  Headers h{a[first]};
  go(h, first + 1, mc::thorough() ? 4 : 3);
}
// Three formats at once.
void Triples() {
  auto lists = ModeLists(3);
  lists.erase(lists.begin(), lists.begin() + 30);
  int m = mc::choose((int)lists.size(), "formats");
  bool http = mc::choose(2, "http");
  Env e(lists[m], http, true, false);
  auto& a = Alphabet();
  for (auto& x : a) for (auto& y : a) e.Run({x, y});
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = i + 1; j < a.size(); ++j)
      for (size_t k = j + 1; k < a.size(); ++k) e.Run({a[i], a[j], a[k]});
}
struct Slot { PropagationMode m; const char* name; const char* value; Headers with; };
const std::vector<Slot>& Slots() {
  typedef PropagationMode P;
  static const std::string tp = "00-" + kT32 + "-00000000000000aa-01", cl = kT32 + "/1844674407370955161;o=1", cl2 = kT32 + "/18446744073709551615;o=1",
                           ev = Encode(Proto(0x0102030405060708ull, 0xfffefdfcfbfaf9f8ull, true, {{"ab", "cd"}, {"E", ""}})), ev2 = Encode(Proto(0, 0, false, {}));
  static const std::vector<Slot> s = {
      {P::lightstep, "ot-tracer-traceid", "0123456789abcdef", {{"ot-tracer-spanid", "7"}}},
      {P::lightstep, "ot-tracer-spanid", "fedcba9876543210", {{"ot-tracer-traceid", "7"}}},
      {P::lightstep, "ot-tracer-sampled", "false", {{"ot-tracer-traceid", "7"}, {"ot-tracer-spanid", "8"}}},
      {P::b3, "X-B3-TraceId", "0123456789abcdeffedcba9876543210", {{"X-B3-SpanId", "7"}}},
      {P::b3, "X-B3-SpanId", "0123456789abcdef", {{"X-B3-TraceId", "7"}}},
      {P::b3, "X-B3-Sampled", "0", {{"X-B3-TraceId", "7"}, {"X-B3-SpanId", "8"}}},
      {P::trace_context, "traceparent", tp.c_str(), {{"tracestate", "k=v"}}},
      {P::cloud_trace, "x-cloud-trace-context", cl.c_str(), {}},
      {P::cloud_trace, "x-cloud-trace-context", cl2.c_str(), {}},
      {P::envoy, "x-ot-span-context", ev.c_str(), {}},
      {P::envoy, "x-ot-span-context", ev2.c_str(), {}}};
  return s;
}
// Every substitution, deletion, insertion, truncation of a valid value.
void Edits() {
  auto& s = Slots()[mc::choose((int)Slots().size(), "header")];
  bool http = mc::choose(2, "http"), lookup = mc::choose(2, "lookup"), before = mc::choose(2, "before");
  Env e({s.m}, http, lookup, false);
  const std::string v = s.value;
  auto run = [&](const std::string& x) {
    Headers h = s.with;
    h.insert(before ? h.begin() : h.end(), {s.name, x});
    e.Run(h);
  };
  run(v);
  for (size_t i = 0; i <= v.size(); ++i) {
    run(v.substr(0, i));
    run(v.substr(i));
    if (i < v.size()) run(v.substr(0, i) + v.substr(i + 1));
    for (int c = 0; c < 256; ++c) {
      std::string x = v;
      x.insert(i, 1, (char)c);
      run(x);
      if (i == v.size()) continue;
      x = v;
      x[i] = (char)c;
      run(x);
      if (mc::thorough())
        for (size_t j = i + 1; j < v.size(); ++j)
          for (char d : {'0', '-', 'G', '/', ';', '=', '\xff', '\0'}) { std::string y = x; y[j] = d; run(y); }
    }
  }
}
// Every short value over significant bytes.
void Short() {
  auto& s = Slots()[mc::choose((int)Slots().size(), "header")];
  Env e({s.m}, true, false, false);
  static const char kBytes[] = {'0', '1', 'f', 'F', 'g', '-', ' ', '\t', '\0', '\x80', '\xff', '=', '/'};
  const int n = sizeof kBytes;
  const int first = mc::choose(n, "first byte");
  std::function<void(std::string&, int)> go = [&](std::string& v, int left) {
    Headers h = s.with;
    h.push_back({s.name, v});
    e.Run(h);
    if (!left) return;
    for (char c : kBytes) { v.push_back(c); go(v, left - 1); v.pop_back(); }
  };
  std::string v(1, kBytes[first]);
  go(v, mc::thorough() ? 4 : 3);
}
// Every short tail of a cloud trace header, and long digit strings.
void Cloud() {
  static const char kBytes[] = {'/', '0', '1', '9', ';', 'o', '=', '\xff'};
  const int first = mc::choose(8, "first byte");
  bool http = mc::choose(2, "http");
  Env e({PropagationMode::cloud_trace}, http, false, false);
  std::function<void(std::string&, int)> go = [&](std::string& v, int left) {
    e.Run({{"x-cloud-trace-context", v}});
    if (!left) return;
    for (char c : kBytes) { v.push_back(c); go(v, left - 1); v.pop_back(); }
  };
  std::string v = kT32 + kBytes[first];
  go(v, mc::thorough() ? 6 : 5);
  if (first == 0)
    for (int n = 0; n <= 45; ++n)
      for (char lead : {'0', '1', '2', '9'})
        for (char rest : {'0', '5', '9'})
          for (auto tail : {"", ";o=0", ";o=1", ";", ";o", ";o=", ";o=12", "x", "1", "123"}) {
            std::string w = kT32 + "/";
            for (int i = 0; i < n; ++i) w += i == 0 ? lead : rest;
            e.Run({{"x-cloud-trace-context", w + tail}});
            w = kT32 + "/" + std::string(n, '0') + "18446744073709551615";
            e.Run({{"x-cloud-trace-context", w + tail}});
            w = kT32 + "/" + std::string(n, '0') + "18446744073709551616";
            e.Run({{"x-cloud-trace-context", w + tail}});
          }
}
// Serialized carriers, as a stream and inside the single header.
void BinaryBytes() {
  static const std::string base[] = {Proto(0x0102030405060708ull, 0xfffefdfcfbfaf9f8ull, true, {{"ab", "cd"}, {"E", ""}}), Proto(1, 0, false, {}), Proto(0, 0, false, {}), std::string("\x0a\x03xyz"), std::string("\x12\x00", 2)};
  const std::string v = base[mc::choose(5, "carrier")];
  bool legacy = mc::choose(2, "legacy"), header = mc::choose(2, "header");
  Env e({header ? PropagationMode::envoy : PropagationMode::lightstep}, true, true, legacy);
  auto run = [&](const std::string& x) {
    if (header) { if (!x.empty()) e.Run({{"x-ot-span-context", Encode(x)}}); return; }
    Context want;
    Verdict r = x.empty() ? kNone : Rules::Binary(x, want);
    std::istringstream in(x);
    e.Judge(r, want, e.tracer->Extract(static_cast<std::istream&>(in)), "stream: " + Show({{"bytes", x}}));
  };
  run(v);
  for (size_t i = 0; i <= v.size(); ++i) {
    run(v.substr(0, i));
    if (i < v.size()) run(v.substr(0, i) + v.substr(i + 1));
    for (int c = 0; c < 256; ++c) {
      std::string x = v;
      x.insert(i, 1, (char)c);
      run(x);
      if (i == v.size()) continue;
      x = v;
      x[i] = (char)c;
      run(x);
      if (mc::thorough())
        for (size_t j = i + 1; j < v.size(); ++j)
          for (int d : {0, 1, 2, 8, 10, 18, 127, 128, 255}) { std::string y = x; y[j] = (char)d; run(y); }
    }
  }
  if (!header) {
    for (int bits : {std::ios::badbit, std::ios::failbit, std::ios::eofbit}) {
      std::istringstream in(v);
      in.setstate((std::ios::iostate)bits);
      MC_CHECK(!e.tracer->Extract(static_cast<std::istream&>(in)), "a broken stream was read");
    }
  }
}
// Errors of the carrier itself are passed on.
template <class Reader>
struct Failing : Reader {
  int lookup, at;
  Headers h;
  opentracing::expected<opentracing::string_view> LookupKey(opentracing::string_view) const override {
    if (lookup == 0) return make_unexpected(opentracing::lookup_key_not_supported_error);
    if (lookup == 1) return make_unexpected(opentracing::key_not_found_error);
    return make_unexpected(std::make_error_code(std::errc::permission_denied));
  }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (int i = 0;; ++i) {
      if (i == at) return make_unexpected(std::make_error_code(std::errc::io_error));
      if (i == (int)h.size()) return {};
      auto r = f(h[i].first, h[i].second);
      if (!r) return r;
    }
  }
};
void CarrierErrors() {
  auto lists = ModeLists(2);
  int m = mc::choose((int)lists.size(), "formats"), legacy = mc::choose(2, "legacy"), lookup = mc::choose(3, "lookup"), at = mc::choose(4, "fails at"), http = mc::choose(2, "http");
  auto t = MakeTracer(legacy, lists[m]);
  Headers h{{"other", "1"}, {"ot-baggage-a", "b"}};
  auto run = [&](const Headers& hs) {
    opentracing::expected<std::unique_ptr<opentracing::SpanContext>> r = make_unexpected(std::error_code{});
    if (http) { Failing<opentracing::HTTPHeadersReader> f; f.lookup = lookup; f.at = at; f.h = hs; r = t->Extract(static_cast<const opentracing::HTTPHeadersReader&>(f)); }
    else { Failing<opentracing::TextMapReader> f; f.lookup = lookup; f.at = at; f.h = hs; r = t->Extract(static_cast<const opentracing::TextMapReader&>(f)); }
    // Whatever is asked of this carrier: it fails, or has nothing.
    bool iterates = false, looks = false;
    for (auto x : lists[m]) { if (x == PropagationMode::envoy) looks = true; iterates = true; }
    bool fails = (looks && lookup == 2) || (iterates && at <= (int)hs.size());
    MC_CHECK(!r == fails, "formats %s: carrier %s but extraction %s", Names(lists[m]).c_str(), fails ? "failed" : "did not fail", r ? "succeeded" : "failed");
    if (r) MC_CHECK(!*r, "a context was found in nothing");
    else MC_CHECK(r.error() == std::make_error_code(std::errc::io_error) || r.error() == std::make_error_code(std::errc::permission_denied), "the carrier's error was replaced by %s", r.error().message().c_str());
    mc::evaluated();
  };
  run(h);
  run({});
}
}  // namespace
MC_SCENARIO(subsets, 0, 0) { Subsets(); }
MC_SCENARIO(selections, 0, 0) { Selections(); }
MC_SCENARIO(triples, 0, 0) { Triples(); }
MC_SCENARIO(edits, 0, 0) { Edits(); }
MC_SCENARIO(short_values, 0, 0) { Short(); }
MC_SCENARIO(cloud, 0, 0) { Cloud(); }
MC_SCENARIO(binary, 0, 0) { BinaryBytes(); }
MC_SCENARIO(carrier_errors, 0, 0) { CarrierErrors(); }

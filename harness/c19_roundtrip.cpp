// mc: variant=asan extra=src/tracer/tracer.cpp,src/recorder/no_stream_recorder.cpp skip=src/recorder/stream_recorder/stream_recorder.cpp
// C19: what is injected by every list of formats into every kind of carrier is
// what comes out again.
#include <lightstep/binary_carrier.h>
#include "propagation.h"
using namespace prop;
namespace {
typedef PropagationMode P;
struct Source {
  uint64_t high, low, span;
  int flags;
  std::string state;
  Bag baggage;
};
std::unique_ptr<ImmutableSpanContext> Immutable(const Source& s) {
  TraceContext t{};
  t.trace_id_high = s.high;
  t.trace_id_low = s.low;
  t.parent_id = s.span;
  t.trace_flags = (uint8_t)s.flags;
  BaggageProtobufMap m;
  for (auto& x : s.baggage) m[x.first] = x.second;
  return std::unique_ptr<ImmutableSpanContext>{new ImmutableSpanContext{t, std::string{s.state}, std::move(m)}};
}
std::vector<std::vector<P>> ModeLists(int max) {
  std::vector<std::vector<P>> r{{}}, last{{}};
  for (int n = 1; n <= max; ++n) {
    std::vector<std::vector<P>> next;
    for (auto& l : last)
      for (auto m : kModes) { auto x = l; x.push_back(m); next.push_back(x); }
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}
const uint64_t kIds[] = {0, 1, 0xf, 0x10, 9, 10, 0xffffffffull, 0x0fffffffffffffffull, 0x1000000000000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 9999999999999999999ull, 0xffffffffffffffffull, 0x0123456789abcdefull};
// What format m can carry of s.
Context Project(P m, const Source& s) {
  Context c;
  c.low = s.low;
  c.span = s.span;
  c.high = m == P::lightstep || m == P::envoy ? 0 : s.high;
  c.flags = m == P::trace_context ? s.flags : s.flags & 1;
  if (m == P::trace_context && !s.state.empty()) c.states.insert(s.state);
  for (auto& x : s.baggage) c.baggage[Lower(x.first)].insert(x.second);
  return c;
}
bool IsHex(const std::string& s, size_t n) {
  if (s.size() != n) return false;
  for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false;
  return true;
}
std::string Text(const char* f, ...) {
  char b[256];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
// The headers themselves, for formats defined elsewhere.
void CheckText(const std::vector<P>& modes, const Headers& h, const Source& s) {
  std::map<std::string, std::vector<std::string>> by;
  for (auto& x : h) by[Lower(x.first)].push_back(x.second);
  std::set<std::string> allowed;
  auto one = [&](const char* k) {
    allowed.insert(k);
    MC_CHECK(by.count(k) && by[k].size() == 1, "header %s is written %zu times in: %s", k, by.count(k) ? by[k].size() : 0, Show(h).c_str());
    return by[k][0];
  };
  for (auto m : modes) {
    typedef unsigned long long U;
    if (m == P::trace_context) {
      auto v = one("traceparent"), w = Text("00-%016llx%016llx-%016llx-%02x", (U)s.high, (U)s.low, (U)s.span, s.flags);
      MC_CHECK(v == w, "traceparent is %s, expected %s", v.c_str(), w.c_str());
      if (!s.state.empty()) { auto t = one("tracestate"); MC_CHECK(t == s.state, "tracestate is %s, expected %s", t.c_str(), s.state.c_str()); }
    } else if (m == P::cloud_trace) {
      auto v = one("x-cloud-trace-context"), w = Text("%016llx%016llx/%llu;o=%d", (U)s.high, (U)s.low, (U)s.span, s.flags & 1);
      MC_CHECK(v == w, "x-cloud-trace-context is %s, expected %s", v.c_str(), w.c_str());
    } else if (m == P::b3) {
      auto t = one("x-b3-traceid"), i = one("x-b3-spanid"), f = one("x-b3-sampled");
      MC_CHECK(IsHex(t, 32) || (s.high == 0 && IsHex(t, 16)), "X-B3-TraceId is \"%s\"", t.c_str());
      MC_CHECK(IsHex(i, 16), "X-B3-SpanId is \"%s\"", i.c_str());
      MC_CHECK(f == (s.flags & 1 ? "1" : "0"), "X-B3-Sampled is \"%s\"", f.c_str());
    } else if (m == P::lightstep) {
      one("ot-tracer-traceid"), one("ot-tracer-spanid");
      one("ot-tracer-sampled");
    } else
      one("x-ot-span-context");
  }
  for (auto& x : by) MC_CHECK(allowed.count(x.first) || x.first.compare(0, 11, "ot-baggage-") == 0, "unexpected header %s", x.first.c_str());
}
std::string Upper(std::string s, int how) {
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] >= 'a' && s[i] <= 'z' && (how == 1 || i % 2)) s[i] -= 32;
  return s;
}
struct Env {
  std::vector<P> modes, effective;
  std::shared_ptr<LightStepTracer> tracer, other;
  bool http, lookup;
  int casing;
  template <class W>
  opentracing::expected<void> Inject(const opentracing::SpanContext& c, Out<W>& o) { return tracer->Inject(c, static_cast<const W&>(o)); }
  template <class W>
  Headers Write(const opentracing::SpanContext& c, bool failures) {
    Out<W> o;
    auto r = Inject(c, o);
    MC_CHECK((bool)r, "injection failed: %s", r ? "" : r.error().message().c_str());
    if (failures)
      for (int k = 0; k < o.calls; ++k) {
        Out<W> f;
        f.fail_at = k;
        auto q = Inject(c, f);
        MC_CHECK(!q, "the carrier refused header %d but injection succeeded", k);
        MC_CHECK(q.error() == std::make_error_code(std::errc::no_space_on_device), "the carrier's error became %s", q.error().message().c_str());
        MC_CHECK(f.calls == k + 1, "the carrier refused header %d and was given %d more", k, f.calls - k - 1);
      }
    return o.h;
  }
  Headers WriteAny(const opentracing::SpanContext& c, bool failures) { return http ? Write<opentracing::HTTPHeadersWriter>(c, failures) : Write<opentracing::TextMapWriter>(c, failures); }
  void Run(const opentracing::SpanContext& c, const Source& s, bool failures = false) {
    auto h = WriteAny(c, failures);
    CheckText(effective, h, s);
    for (auto& m : effective) {
      Context got, want = Project(m, s);
      Verdict v = Rules{http, lookup}.Mode(m, h, got);
      MC_CHECK(v == kContext, "format %d: the injected headers are not valid: %s", (int)m, Show(h).c_str());
      if (m != P::trace_context && !got.flag_choices.empty()) { MC_CHECK(got.flag_choices == std::set<int>{want.flags}, "format %d: flags", (int)m); got.flags = want.flags; }
      MC_CHECK(got.high == want.high && got.low == want.low && got.span == want.span && got.flags == want.flags, "format %d: injected headers say otherwise than the context: %s", (int)m, Show(h).c_str());
      if (m == P::trace_context) MC_CHECK(got.states == want.states, "trace state");
      if (!got.baggage.empty() || !want.baggage.empty()) MC_CHECK(got.baggage == want.baggage, "format %d: baggage written differs: %s", (int)m, Show(h).c_str());
    }
    if (casing) for (auto& x : h) x.first = Upper(x.first, casing);
    Context want = Project(effective[0], s);
    auto e = prop::Extract(*other, h, http, lookup);
    MC_CHECK(e && *e, "nothing extracted from %s", Show(h).c_str());
    CheckContext(**e, want, Show(h));
    // passing it on
    Source s2{want.high, want.low, want.span, want.flags, want.states.empty() ? "" : *want.states.begin(), {}};
    auto h2 = WriteAny(**e, false);
    CheckText(effective, h2, s2);
    for (auto& m : effective) {
      Context got, w = Project(m, s2);
      MC_CHECK((Rules{http, lookup}.Mode(m, h2, got)) == kContext, "passing on: not valid");
      MC_CHECK(got.high == w.high && got.low == w.low && got.span == w.span, "passing on: ids differ: %s", Show(h2).c_str());
      std::map<std::string, std::set<std::string>> b = got.baggage;
      for (auto& x : want.baggage) {
        MC_CHECK(b.count(x.first) && b[x.first].size() == 1 && x.second.count(*b[x.first].begin()), "passing on: baggage %s: %s", x.first.c_str(), Show(h2).c_str());
        b.erase(x.first);
      }
      MC_CHECK(b.empty(), "passing on: more baggage");
    }
    mc::evaluated();
  }
};
Env Pick(int max) {
  static const auto lists = ModeLists(3);
  int n = max == 1 ? 6 : max == 2 ? 31 : 156;
  Env e;
  int list = mc::choose(n, "formats");
  e.modes = lists[list];
  // the single key takes precedence over whatever list is given
  bool single = list < 6 && mc::choose(2, "single key");
  int carrier = mc::choose(5, "carrier");  // text, text without lookup, http, http without lookup upper, http mixed
  bool legacy = mc::choose(2, "legacy"), other = mc::choose(2, "other legacy");
  e.tracer = MakeTracer(legacy, e.modes, single);
  e.other = MakeTracer(other, e.modes, single);
  e.http = carrier >= 2;
  e.lookup = carrier == 0 || carrier == 2;
  e.casing = carrier == 3 ? 1 : carrier == 4 ? 2 : 0;
  auto all = e.modes;
  if (single) all = {P::envoy};
  else if (all.empty()) all = {P::lightstep};
  for (auto m : all) {
    bool have = false;
    for (auto x : e.effective) have |= x == m;
    if (!have) e.effective.push_back(m);
  }
  return e;
}
const std::vector<Bag>& Bags() {
  static const std::vector<Bag> b = [] {
    std::vector<Bag> r{{}, {{"a", "b"}}, {{"a", ""}}, {{"abc", "x y"}, {"abd", "1"}}, {{"Key", "v"}}, {{"KEY", "1"}, {"key", "2"}}, {{"x-y_z.1", "!@#$%^&*()"}}, {{"long", std::string(300, 'q')}}, {{std::string(200, 'k'), "v"}}, {{"u", "\xc3\xa9\xe2\x82\xac"}}, {{"ot-baggage-", "n"}}};
    for (int c = 32; c < 127; ++c) r.push_back({{std::string("k") + (char)c, std::string("v") + (char)c + "w"}});
    Bag many;
    for (int i = 0; i < 40; ++i) many["key" + std::to_string(i)] = std::to_string(i * i);
    r.push_back(many);
    return r;
  }();
  return b;
}
}  // namespace
// Every id value in every place.
MC_SCENARIO(ids, 0, 0) {
  Env e = Pick(mc::thorough() ? 3 : 2);
  for (uint64_t high : kIds)
    for (uint64_t low : kIds)
      for (uint64_t span : kIds)
        for (int flags : {0, 1}) {
          if (!mc::thorough() && e.modes.size() == 2 && (high ^ low ^ span) % 7 != 3 && high != low && low != span) continue;
          Source s{high, low, span, flags, "", {}};
          e.Run(*Immutable(s), s);
        }
}
// Baggage, flags, trace states and refusing carriers.
MC_SCENARIO(contents, 0, 0) {
  Env e = Pick(mc::thorough() ? 3 : 2);
  for (auto& b : Bags())
    for (auto state : {"", "a=b", "congo=t61rcWkgMzE,rojo=00f067aa0ba902b7"})
      for (int flags : {0, 1}) {
        Source s{1, 0xab, 0xcd, flags, state, b};
        e.Run(*Immutable(s), s, b.size() < 5 && b.size() && b.begin()->first.size() > 2);
      }
  for (int flags = 0; flags < 256; ++flags) {
    Source s{1, 2, 3, flags, "x=y", {{"a", "b"}}};
    e.Run(*Immutable(s), s);
  }
}
// Contexts of live spans, with and without a remote parent.
MC_SCENARIO(spans_of_tracer, 0, 0) {
  Env e = Pick(mc::thorough() ? 2 : 1);
  int parent = mc::choose(4, "parent"), sampled = mc::choose(3, "sampling tag"), bag = mc::choose(4, "baggage");
  Source p{parent == 2 ? 0x11ull : 0, 0x22, 0x33, parent == 3 ? 0 : 1, parent == 1 ? "" : "k=v,l=w", parent == 2 ? Bag{{"in", "herited"}} : Bag{}};
  auto remote = Immutable(p);
  auto span = parent ? spans::Child(*e.tracer, "x", remote.get()) : e.tracer->StartSpan("x");
  if (sampled) span->SetTag("sampling.priority", sampled - 1);
  Bag want = p.baggage;
  if (!parent) want.clear();
  if (bag >= 1) { span->SetBaggageItem("one", "1"); want["one"] = "1"; }
  if (bag >= 2) { span->SetBaggageItem("Two", "2"); want["two"] = "2"; }
  if (bag >= 3) { span->SetBaggageItem("one", "3"); want["one"] = "3"; }
  auto& c = spans::Ctx(span->context());
  Source s{parent ? p.high : 0, parent ? p.low : c.trace_id_low(), c.span_id(), 0, parent ? p.state : "", want};
  s.flags = sampled ? sampled - 1 : parent ? p.flags : 1;
  if (!parent) s.high = c.trace_id_high();
  e.Run(c, s, true);
}
// Binary streams and binary carrier objects.
MC_SCENARIO(binary, 0, 0) {
  bool legacy = mc::choose(2, "legacy"), object = mc::choose(2, "object");
  static const auto lists = ModeLists(1);
  auto modes = lists[mc::choose((int)lists.size(), "formats")];
  auto t = MakeTracer(legacy, modes), u = MakeTracer(!legacy, modes);
  auto run = [&](const Source& s) {
    auto c = Immutable(s);
    Context want = Project(P::envoy, s);
    opentracing::expected<std::unique_ptr<opentracing::SpanContext>> e = opentracing::make_unexpected(std::error_code{});
    std::string bytes;
    if (object) {
      want.baggage.clear();
      for (auto& x : s.baggage) want.baggage[x.first].insert(x.second);
      BinaryCarrier b;
      b.mutable_basic_ctx()->set_trace_id(99);
      (*b.mutable_basic_ctx()->mutable_baggage_items())["old"] = "x";
      MC_CHECK((bool)LightStepBinaryWriter(b).Inject(*t, *c), "injection failed");
      bytes = b.SerializeAsString();
      e = LightStepBinaryReader(&b).Extract(*u);
      Context again;
      MC_CHECK(Rules::Binary(b.SerializeAsString(), again) == kContext && again.low == s.low, "extraction changed the carrier");
    } else {
      std::ostringstream out;
      MC_CHECK((bool)t->Inject(*c, out), "injection failed");
      bytes = out.str();
      std::istringstream in(bytes);
      e = u->Extract(in);
    }
    Context wire;
    MC_CHECK(Rules::Binary(bytes, wire) == kContext, "the bytes are no carrier");
    Context p = Project(P::envoy, s);
    MC_CHECK(wire.low == s.low && wire.span == s.span && wire.flags == (s.flags & 1) && wire.baggage == p.baggage, "the bytes say otherwise than the context");
    MC_CHECK(e && *e, "nothing extracted");
    CheckContext(**e, want, object ? "carrier object" : "stream");
    mc::evaluated();
  };
  for (uint64_t low : kIds)
    for (uint64_t span : kIds)
      for (int flags : {0, 1, 2, 3})
        for (auto high : {0ull, 5ull}) run({high, low, span, flags, "a=b", {{"a", "b"}}});
  for (auto& b : Bags()) run({1, 2, 3, 1, "", b});
  if (!object) {
    for (int bits : {std::ios::badbit, std::ios::failbit}) {
      std::ostringstream out;
      out.setstate((std::ios::iostate)bits);
      MC_CHECK(!t->Inject(*Immutable({1, 2, 3, 1, "", {}}), out), "writing to a broken stream succeeded");
    }
    // a stream that takes only n bytes
    struct Buf : std::streambuf {
      int left;
      int overflow(int c) override { return left-- > 0 ? c : EOF; }
      int sync() override { return left < 0 ? -1 : 0; }
    };
    std::ostringstream whole;
    auto c = Immutable({1, ~0ull, ~0ull, 1, "", {{"abc", "def"}}});
    MC_CHECK((bool)t->Inject(*c, whole), "injection failed");
    for (int n = 0; n <= (int)whole.str().size(); ++n) {
      Buf b;
      b.left = n;
      std::ostream o(&b);
      MC_CHECK((bool)t->Inject(*c, o) == (n >= (int)whole.str().size()), "a stream taking %d of %zu bytes", n, whole.str().size());
    }
  } else {
    auto e = LightStepBinaryReader(nullptr).Extract(*u);
    MC_CHECK(!e || !*e, "a context came out of no carrier");
  }
}
// Contexts of other tracers are refused and write nothing.
struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override {}
};
struct ForeignTracer : opentracing::Tracer {
  std::unique_ptr<opentracing::Span> StartSpanWithOptions(opentracing::string_view, const opentracing::StartSpanOptions&) const noexcept override { return nullptr; }
  opentracing::expected<void> Inject(const opentracing::SpanContext&, std::ostream&) const override { return {}; }
  opentracing::expected<void> Inject(const opentracing::SpanContext&, const opentracing::TextMapWriter&) const override { return {}; }
  opentracing::expected<void> Inject(const opentracing::SpanContext&, const opentracing::HTTPHeadersWriter&) const override { return {}; }
  opentracing::expected<std::unique_ptr<opentracing::SpanContext>> Extract(std::istream&) const override { return std::unique_ptr<opentracing::SpanContext>{}; }
  opentracing::expected<std::unique_ptr<opentracing::SpanContext>> Extract(const opentracing::TextMapReader&) const override { return std::unique_ptr<opentracing::SpanContext>{}; }
  opentracing::expected<std::unique_ptr<opentracing::SpanContext>> Extract(const opentracing::HTTPHeadersReader&) const override { return std::unique_ptr<opentracing::SpanContext>{}; }
};
MC_SCENARIO(foreign, 0, 0) {
  Env e = Pick(2);
  Foreign f;
  std::ostringstream out;
  Out<opentracing::TextMapWriter> o;
  Out<opentracing::HTTPHeadersWriter> p;
  MC_CHECK(!e.Inject(f, o) && o.calls == 0, "a foreign context was injected");
  MC_CHECK(!e.Inject(f, p) && p.calls == 0, "a foreign context was injected");
  MC_CHECK(!e.tracer->Inject(f, out) && out.str().empty(), "a foreign context was injected");
  BinaryCarrier b;
  MC_CHECK(!LightStepBinaryWriter(b).Inject(*e.tracer, f), "a foreign context was injected");
  MC_CHECK(!e.tracer->GetTraceSpanIdsSampled(f), "a foreign context has ids");
  ForeignTracer ft;
  auto c = Immutable({0, 1, 2, 1, "", {}});
  MC_CHECK(!LightStepBinaryWriter(b).Inject(ft, *c) && !LightStepBinaryReader(&b).Extract(ft), "a foreign tracer was used");
  auto ids = e.tracer->GetTraceSpanIdsSampled(*c);
  MC_CHECK(ids && (*ids)[0] == 1 && (*ids)[1] == 2, "ids of a context");
  auto m = e.tracer->MakeSpanContext(7, 8, true, {{"a", "b"}});
  MC_CHECK((bool)m, "no context");
  Source s{0, 7, 8, 1, "", {{"a", "b"}}};
  e.Run(**m, s);
  mc::evaluated();
}

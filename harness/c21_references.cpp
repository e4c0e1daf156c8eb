// mc: variant=asan
// C21: ids, parentage, sampling, trace state and baggage over every combination
// of references, sampling tags and baggage operations, for both tracers.
#include <set>
#include "clocks.h"
#include "spans.h"
#include "tracer/immutable_span_context.h"
using namespace spans;
using opentracing::Value;
namespace {
typedef std::map<std::string, std::string> Bag;
struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)> f) const override { f("foreign", "x"); }
};
struct Parent {
  const opentracing::SpanContext* c;
  bool usable;
  uint64_t high, low, span;
  int flags;
  std::string state;
  Bag baggage;
};
std::unique_ptr<ImmutableSpanContext> Immutable(uint64_t high, uint64_t low, uint64_t span, uint8_t flags, const std::string& state, const Bag& b) {
  TraceContext t{};
  t.trace_id_high = high;
  t.trace_id_low = low;
  t.parent_id = span;
  t.trace_flags = flags;
  BaggageProtobufMap m;
  for (auto& x : b) m[x.first] = x.second;
  return std::unique_ptr<ImmutableSpanContext>{new ImmutableSpanContext{t, std::string{state}, std::move(m)}};
}
std::string NoEmptyMembers(const std::string& s) {
  std::string r, cur;
  for (char c : s + ",")
    if (c == ',') { if (!cur.empty()) r += (r.empty() ? "" : ",") + cur; cur.clear(); }
    else cur += c;
  return r;
}
Bag Baggage(const opentracing::SpanContext& c) {
  Bag b;
  c.ForeachBaggageItem([&](const std::string& k, const std::string& v) { MC_CHECK(b.emplace(k, v).second, "baggage %s shown twice", k.c_str()); return true; });
  return b;
}
void CheckBag(const Bag& got, const Bag& want, const char* what) {
  for (auto& x : want) {
    auto it = got.find(x.first);
    MC_CHECK(it != got.end(), "%s: baggage \"%s\" is missing", what, x.first.c_str());
    MC_CHECK(it->second == x.second, "%s: baggage \"%s\" is \"%s\", expected \"%s\"", what, x.first.c_str(), it->second.c_str(), x.second.c_str());
  }
  MC_CHECK(got.size() == want.size(), "%s: %zu baggage items, expected %zu", what, got.size(), want.size());
}
struct Tags { int kind; const char* name; };
// sampling tag values and whether they mean "sampled"
const std::pair<Value, bool>& SamplingValue(int k) {
  static const std::pair<Value, bool> v[] = {{Value{0}, false}, {Value{1}, true}, {Value{0u}, false}, {Value{7u}, true}, {Value{-1}, true}, {Value{"0"}, true}};
  return v[k];
}
struct TextCarrier : opentracing::TextMapReader, opentracing::TextMapWriter {
  mutable std::map<std::string, std::string> m;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override { m[k] = std::string(v); return {}; }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& x : m) { auto r = f(x.first, x.second); if (!r) return r; }
    return {};
  }
};
}  // namespace
MC_SCENARIO(references, 0, 0) {
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  World w{mc::choose(2, "tracer") == 1};
  std::vector<Parent> ps;
  Foreign foreign;
  ps.push_back({nullptr, false, 0, 0, 0, 0, "", {}});
  ps.push_back({&foreign, false, 0, 0, 0, 0, "", {}});
  auto a = w.tracer->StartSpan("a");
  a->SetBaggageItem("A", "1");
  ps.push_back({&a->context(), true, 0, Ctx(a->context()).trace_id_low(), Ctx(a->context()).span_id(), 1, "", {{"a", "1"}}});
  auto b = w.tracer->StartSpan("b");
  b->SetTag("sampling.priority", Value{0});
  b->SetBaggageItem("a", "2");
  b->SetBaggageItem("b", "3");
  ps.push_back({&b->context(), true, 0, Ctx(b->context()).trace_id_low(), Ctx(b->context()).span_id(), 0, "", {{"a", "2"}, {"b", "3"}}});
  auto c = Immutable(0xabcdef0123456789ull, 1, ~0ull, 1, "x=1", {{"c", "4"}});
  ps.push_back({c.get(), true, 0xabcdef0123456789ull, 1, ~0ull, 1, "x=1", {{"c", "4"}}});
  auto d = Immutable(0, ~0ull, 2, 0, "y=2,z=3", {{"a", "5"}, {"Upper", "6"}});
  ps.push_back({d.get(), true, 0, ~0ull, 2, 0, "y=2,z=3", {{"a", "5"}, {"Upper", "6"}}});
  auto e = Immutable(7, 8, 9, 2, "", {});
  ps.push_back({e.get(), true, 7, 8, 9, 2, "", {}});
  opentracing::StartSpanOptions so;
  int n = mc::choose(4, "references");
  Expect x;
  x.name = "n";
  bool any = false;
  uint64_t high = 0;
  int flags = 0;
  std::string state;
  for (int i = 0; i < n; ++i) {
    auto& p = ps[mc::choose((int)ps.size(), "parent")];
    bool child = n < 3 || mc::thorough() ? mc::choose(2, "kind") == 0 : i % 2 == 0;
    so.references.emplace_back(child ? opentracing::SpanReferenceType::ChildOfRef : opentracing::SpanReferenceType::FollowsFromRef, p.c);
    if (!p.usable) continue;
    if (!any) { high = p.high; x.trace = p.low; }
    any = true;
    flags |= p.flags;
    state += (state.empty() || p.state.empty() ? "" : ",") + p.state;
    for (auto& y : p.baggage) x.baggage[y.first] = y.second;
    x.refs.push_back({child, p.low, p.span});
  }
  if (!any) flags |= 1;
  int st = mc::choose(n < 3 || mc::thorough() ? 8 : 3, "start tag") - 1;
  if (st >= 0) {
    if (mc::choose(2, "other tag first")) { so.tags.emplace_back("t", Value{0}); x.tags.emplace_back("t", Value{0}); }
    auto& v = SamplingValue(st % 6);
    // a second sampling tag overrides the first
    if (st == 6) { so.tags.emplace_back("sampling.priority", Value{1}); x.tags.emplace_back("sampling.priority", Value{1}); }
    so.tags.emplace_back("sampling.priority", v.first);
    x.tags.emplace_back("sampling.priority", v.first);
    flags = (flags & ~1) | v.second;
  }
  x.start_ns = clocks::system_ns();
  auto s = w.tracer->StartSpanWithOptions("n", so);
  auto check = [&](const char* when) {
    auto& cx = Ctx(s->context());
    MC_CHECK(cx.trace_id_high() == high, "%s: trace id high %llx, expected %llx", when, (unsigned long long)cx.trace_id_high(), (unsigned long long)high);
    if (any) MC_CHECK(cx.trace_id_low() == x.trace, "%s: trace id %llx, expected %llx", when, (unsigned long long)cx.trace_id_low(), (unsigned long long)x.trace);
    MC_CHECK(cx.trace_flags() == flags, "%s: trace flags %d, expected %d", when, cx.trace_flags(), flags);
    MC_CHECK(cx.sampled() == (flags & 1), "%s: sampled() is wrong", when);
    MC_CHECK(NoEmptyMembers(cx.trace_state()) == state, "%s: trace state \"%s\", expected \"%s\"", when, std::string(cx.trace_state()).c_str(), state.c_str());
    CheckBag(Baggage(s->context()), x.baggage, when);
    for (auto& y : x.baggage) if (y.first != "Upper") MC_CHECK(s->BaggageItem(y.first) == y.second, "%s: BaggageItem(%s) differs", when, y.first.c_str());
  };
  auto& cx = Ctx(s->context());
  std::set<uint64_t> ids{cx.span_id()};
  for (auto& p : ps) if (p.usable) MC_CHECK(ids.insert(p.span).second, "span id %llx is its parent's", (unsigned long long)p.span);
  if (!any) {
    x.trace = cx.trace_id_low();
    for (auto& p : ps) MC_CHECK(!p.usable || p.low != x.trace, "a new trace has the id of another");
    MC_CHECK(x.trace != cx.span_id(), "trace id equals span id");
  }
  x.span = cx.span_id();
  check("after start");
  int later = mc::choose(4, "later");
  if (later) {
    auto& v = SamplingValue(later == 1 ? 0 : later == 2 ? 1 : 2);
    s->SetTag("sampling.priority", v.first);
    x.tags.emplace_back("sampling.priority", v.first);
    flags = (flags & ~1) | v.second;
    check("after sampling tag");
  }
  if (mc::choose(2, "baggage")) {
    s->SetBaggageItem("A", "new");
    x.baggage["a"] = "new";
    s->SetBaggageItem("more", "");
    x.baggage["more"] = "";
    check("after setting baggage");
  }
  // A child, local and through injection into another process.
  for (int remote = 0; remote < 2; ++remote) {
    std::unique_ptr<opentracing::SpanContext> ext;
    const opentracing::SpanContext* pc = &s->context();
    if (remote) {
      TextCarrier tc;
      MC_CHECK(w.tracer->Inject(s->context(), static_cast<const opentracing::TextMapWriter&>(tc)), "injection failed");
      auto r = w.tracer->Extract(static_cast<const opentracing::TextMapReader&>(tc));
      MC_CHECK(r && *r, "extraction failed");
      ext = std::move(*r);
      pc = ext.get();
      MC_CHECK(Ctx(*pc).span_id() == x.span, "extracted span id differs");
    }
    World w2{w.legacy};
    auto ch = Child(*w2.tracer, "child", pc);
    auto& cc = Ctx(ch->context());
    MC_CHECK(cc.trace_id_low() == x.trace, "child trace id %llx, expected %llx", (unsigned long long)cc.trace_id_low(), (unsigned long long)x.trace);
    if (!remote) MC_CHECK(cc.trace_id_high() == high, "child trace id high differs");
    MC_CHECK(ids.insert(cc.span_id()).second, "child span id repeats an id");
    MC_CHECK(cc.sampled() == (flags & 1), "%s child sampled %d, expected %d", remote ? "remote" : "local", cc.sampled(), flags & 1);
    if (!remote || !x.baggage.count("Upper")) CheckBag(Baggage(ch->context()), x.baggage, remote ? "remote child" : "child");
    // overriding the child's decision leaves the parent's alone
    ch->SetTag("sampling.priority", Value{(flags & 1) ? 0 : 1});
    ch->SetBaggageItem("childonly", "1");
    ch->Finish();
    MC_CHECK(w2.Spans().size() == ((flags & 1) ? 0u : 1u), "child reported against its sampling tag");
    check("after child");
  }
  s->Finish();
  check("after finish");
  auto got = w.Spans();
  MC_CHECK(got.size() == (size_t)(flags & 1), "%zu spans reported for a span with sampling %d", got.size(), flags & 1);
  if (flags & 1) Check(got[0], x);
  mc::evaluated();
}
// Trees of spans: each node continues its parent.
MC_SCENARIO(trees, 0, 0) {
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  World w{mc::choose(2, "tracer") == 1};
  struct Node { std::unique_ptr<opentracing::Span> s; Expect e; bool sampled, finished; };
  std::vector<Node> v;
  std::vector<Expect> done;
  std::set<uint64_t> ids;
  int depth = mc::thorough() ? 7 : 5;
  for (int i = 0; i < depth; ++i) {
    clocks::Advance(1000);
    int k = v.empty() ? 0 : mc::choose((int)v.size() + 1, "node");
    if (v.empty() || k == (int)v.size()) {
      Node n;
      n.s = w.tracer->StartSpan("root");
      n.e.name = "root";
      n.e.start_ns = clocks::system_ns();
      n.e.trace = Ctx(n.s->context()).trace_id_low();
      n.e.span = Ctx(n.s->context()).span_id();
      MC_CHECK(ids.insert(n.e.trace).second && ids.insert(n.e.span).second, "ids repeat");
      n.sampled = true; n.finished = false;
      v.push_back(std::move(n));
      continue;
    }
    Node& p = v[k];
    switch (mc::choose(5, "op")) {
      case 0: {
        Node n;
        n.s = Child(*w.tracer, "child", &p.s->context());
        n.e.name = "child";
        n.e.start_ns = clocks::system_ns();
        n.e.trace = Ctx(n.s->context()).trace_id_low();
        n.e.span = Ctx(n.s->context()).span_id();
        MC_CHECK(n.e.trace == p.e.trace, "child left the trace");
        MC_CHECK(ids.insert(n.e.span).second, "ids repeat");
        n.e.refs.push_back({true, p.e.trace, p.e.span});
        n.e.baggage = p.e.baggage;
        n.sampled = p.sampled; n.finished = false;
        v.push_back(std::move(n));
        break;
      }
      case 1: if (!p.finished) { p.s->SetBaggageItem("k", std::to_string(i)); p.e.baggage["k"] = std::to_string(i); } break;
      case 2: if (!p.finished) { p.s->SetTag("sampling.priority", Value{0}); p.e.tags.emplace_back("sampling.priority", Value{0}); p.sampled = false; } break;
      case 3: if (!p.finished) { p.s->SetTag("sampling.priority", Value{1}); p.e.tags.emplace_back("sampling.priority", Value{1}); p.sampled = true; } break;
      case 4: if (!p.finished) { p.e.micros = (clocks::system_ns() - p.e.start_ns) / 1000; p.s->Finish(); p.finished = true; if (p.sampled) done.push_back(p.e); } break;
    }
  }
  for (auto& n : v) if (!n.finished) { n.e.micros = (clocks::system_ns() - n.e.start_ns) / 1000; n.s->Finish(); if (n.sampled) done.push_back(n.e); }
  auto got = w.Spans();
  MC_CHECK(got.size() == done.size(), "%zu spans reported, expected %zu", got.size(), done.size());
  for (size_t i = 0; i < got.size(); ++i) Check(got[i], done[i]);
  mc::evaluated();
}

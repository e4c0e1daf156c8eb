// mc: variant=asan
// C22: every kind of tag or log value in every place becomes the documented
// typed value, or JSON text that parses back to it, in both tracers.
#include <cfloat>
#include <climits>
#include "clocks.h"
#include "common/utility.h"
#include "spans.h"
using namespace spans;
#include <google/protobuf/stubs/logging.h>
using opentracing::Dictionary;
using opentracing::Value;
using opentracing::Values;
namespace {
// Bytes that are no UTF-8 make the protobuf library write warnings.
auto* const kQuiet = google::protobuf::SetLogHandler(nullptr);
std::vector<Value> Scalars() {
  std::vector<Value> v;
  for (bool b : {false, true}) v.emplace_back(b);
  v.emplace_back(nullptr);
  for (int64_t i : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)10, (int64_t)127, (int64_t)128, (int64_t)-128, (int64_t)16383, (int64_t)16384, (int64_t)1 << 31, -((int64_t)1 << 31), (int64_t)INT64_MAX, (int64_t)INT64_MIN}) v.emplace_back(i);
  for (uint64_t u : {(uint64_t)0, (uint64_t)1, (uint64_t)31, (uint64_t)127, (uint64_t)128, (uint64_t)INT64_MAX, (uint64_t)1 << 63, (uint64_t)UINT64_MAX}) v.emplace_back(u);
  for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 1e6, 123456.0, 1234567.0, 1e300, -1e-300, DBL_MAX, DBL_MIN, DBL_TRUE_MIN, (double)NAN, (double)INFINITY, -(double)INFINITY}) v.emplace_back(d);
  for (const char* s : {"", "a", "plain text", "\"", "\\", "\n\r\t\b\f", "\x01\x1f\x7f", "\xc3\xa9\xe2\x82\xac", "null", "{}", "a\"b\\c"}) { v.emplace_back(std::string(s)); v.emplace_back(s); }
  v.emplace_back(std::string("nul\0inside", 10));
  v.emplace_back(std::string(300, 'x'));
  return v;
}
const std::vector<Value>& S() { static std::vector<Value> v = Scalars(); return v; }
const char* const kKeys[] = {"k", "", "a\"b", "\\", "\x02", "\xc3\xa9"};
// Reports `v` from one place and checks what arrives.
void Report(bool legacy, int place, const std::string& key, const Value& v) {
  World w{legacy};
  opentracing::StartSpanOptions so;
  if (place == 0) so.tags.emplace_back(key, v);
  auto span = w.tracer->StartSpanWithOptions("n", so);
  if (place == 1) span->SetTag(key, v);
  if (place == 2) span->Log({{key, v}});
  if (place == 4) span->Log({{"j", Value{Values{}}}, {key, v}, {"k", Value{Values{Value{1}}}}});
  opentracing::FinishSpanOptions fo;
  if (place == 3) fo.log_records.push_back({opentracing::SystemClock::now(), {{"a", Value{1}}, {key, v}}});
  span->FinishWithOptions(fo);
  auto got = w.Spans();
  MC_CHECK(got.size() == 1, "%zu spans reported", got.size());
  if (place < 2) {
    MC_CHECK(got[0].tags.size() == 1 && got[0].logs.empty(), "%zu tags reported", got[0].tags.size());
    wire::CheckKV(got[0].tags[0], key, v, place ? "SetTag" : "start tag");
  } else {
    size_t n = place == 2 ? 1 : place == 3 ? 2 : 3, at = place == 2 ? 0 : 1;
    MC_CHECK(got[0].logs.size() == 1 && got[0].logs[0].fields.size() == n, "log record has the wrong fields");
    wire::CheckKV(got[0].logs[0].fields[at], key, v, "log field");
    if (place == 4) {
      wire::CheckKV(got[0].logs[0].fields[0], "j", Value{Values{}}, "field before");
      wire::CheckKV(got[0].logs[0].fields[2], "k", Value{Values{Value{1}}}, "field after");
    }
  }
  mc::evaluated();
}
void Convert(const std::string& key, const Value& v) {
  auto kv = ToKeyValue(key, v);
  wire::CheckKV(wire::ReadKV(kv.SerializeAsString()), key, v, "ToKeyValue");
  mc::evaluated();
}
// All trees of a depth over a few leaves.
std::vector<Value> Grow(const std::vector<Value>& sub, const std::vector<Value>& leaves) {
  std::vector<Value> r = leaves;
  r.push_back(Values{});
  r.push_back(Dictionary{});
  for (auto& a : sub) {
    r.push_back(Values{a});
    for (auto& b : sub) r.push_back(Values{a, b});
    for (auto k : kKeys) {
      r.push_back(Dictionary{{k, a}});
      for (auto& l : leaves) r.push_back(Dictionary{{k, a}, {"z", l}});
    }
  }
  return r;
}
const std::vector<Value>& Trees1() {
  static const int kLeaf[] = {1, 2, 6, 15, 23, 36, 37, 41, 42, 46, 50};
  static std::vector<Value> v = [] {
    std::vector<Value> l;
    for (int i : kLeaf) l.push_back(S()[i]);
    return Grow(l, l);
  }();
  return v;
}
const std::vector<Value>& Trees2() {
  static std::vector<Value> v = [] {
    std::vector<Value> l{S()[6], S()[46]};
    return Grow(Grow(l, l), l);
  }();
  return v;
}
}  // namespace
MC_SCENARIO(scalars, 0, 0) {
  bool legacy = mc::choose(2, "tracer");
  int place = mc::choose(5, "place");
  const char* key = kKeys[mc::choose(6, "key")];
  int form = mc::choose(4, "form");
  for (auto& v : S()) {
    Value x = v;
    if (form == 1) x = Values{v};
    if (form == 2) x = Dictionary{{"k", v}};
    if (form == 3) x = Values{Value{Values{v}}, v};
    Report(legacy, place, key, x);
    Convert(key, x);
  }
}
MC_SCENARIO(pairs, 0, 0) {
  size_t a = (size_t)mc::choose((int)S().size(), "first");
  int form = mc::choose(3, "form");
  for (auto& v : S()) {
    Value x = form == 0 ? Value{Values{S()[a], v}} : form == 1 ? Value{Dictionary{{"p", S()[a]}, {"q", v}}} : Value{Values{S()[a], v, S()[a]}};
    Convert("k", x);
    if (form == 2) Report(false, 2, "k", x);
  }
}
// Every byte alone, after and before another, as text, inside a list and as a key.
MC_SCENARIO(bytes, 0, 0) {
  int b = mc::choose(256, "byte");
  int form = mc::choose(5, "form");
  for (int c = -1; c < 256; c += (c < 0x22 || c > 0x5a) ? 1 : 7) {
    std::string s(1, (char)b);
    if (c >= 0) s += (char)c;
    switch (form) {
      case 0: Convert("k", Value{s}); break;
      case 1: Convert("k", Value{Values{Value{s}, Value{17}}}); break;
      case 2: Convert("k", Value{Dictionary{{s, Value{s}}, {"other", Value{18u}}}}); break;
      case 3: Report(false, 1, s, Value{s}); break;
      case 4: Report(true, 2, s, Value{Values{Value{s}, Value{-5}}}); break;
    }
  }
}
MC_SCENARIO(trees, 0, 0) {
  auto& t = Trees1();
  auto& a = t[mc::choose((int)t.size(), "first")];
  Report(false, 1, "k", a);
  Report(true, 2, "k", a);
  Convert("k", Value{Values{Value{Values{a}}}});
  for (auto& b : t) {
    Convert("k", Value{Values{a, b}});
    Convert("k", Value{Dictionary{{"\x01k", a}, {"z", b}}});
  }
  mc::state(mc::hash(ToJson(a)));
}
MC_SCENARIO(deep_trees, 0, 0) {
  auto& t = Trees2();
  auto& a = t[mc::choose((int)t.size(), "first")];
  Convert("k", Value{Values{a}});
  Convert("k", Value{Dictionary{{"d", a}}});
  if (mc::thorough())
    for (auto& b : t) Convert("k", Value{Values{a, b}});
  Value deep = a;
  for (int i = 0; i < 40; ++i) deep = i % 2 ? Value{Dictionary{{"n", deep}}} : Value{Values{deep}};
  Convert("k", deep);
  mc::state(mc::hash(ToJson(a)));
}
// The reporter's own tags pass through the same conversion.
MC_SCENARIO(process_tags, 0, 0) {
  bool legacy = mc::choose(2, "tracer");
  const char* key = kKeys[mc::choose(6, "key")];
  for (auto& v : S()) {
    LightStepTracerOptions o;
    o.access_token = "tok";
    o.tags.clear();
    o.tags[key] = v;
    o.tags["list"] = Value{Values{v}};
    World w{legacy, PropagationOptions{}, std::move(o)};
    w.tracer->StartSpan("n")->Finish();
    w.Spans();
    auto r = wire::ReadReport(w.reports.at(0));
    MC_CHECK(r.reporters == 1 && r.auths == 1 && r.token == "tok", "header incomplete");
    MC_CHECK(r.reporter_tags.size() == 2, "%zu process tags", r.reporter_tags.size());
    for (auto& t : r.reporter_tags) {
      if (t.key == key) wire::CheckKV(t, key, v, "process tag");
      else wire::CheckKV(t, "list", Value{Values{v}}, "process tag");
    }
    mc::evaluated();
  }
}

// mc: variant=asan
// C08: every way of building a span is reported as built, for both tracers.
#include "clocks.h"
#include "spans.h"
using namespace spans;
using opentracing::Value;
using opentracing::Values;
using opentracing::Dictionary;
namespace {
typedef std::unique_ptr<opentracing::Span> SpanPtr;
struct Live {
  SpanPtr span;
  Expect e;
  bool finished = false, sampled = true;
  int64_t start_steady = 0;
};
void Init(Live& l) {
  auto& c = Ctx(l.span->context());
  l.e.trace = c.trace_id_low();
  l.e.span = c.span_id();
}
void DoFinish(Live& l, std::vector<Expect>& done, const opentracing::FinishSpanOptions* o) {
  int64_t fin = clocks::steady_ns();
  if (o) {
    if (o->finish_steady_timestamp != opentracing::SteadyTime()) fin = std::chrono::duration_cast<std::chrono::nanoseconds>(o->finish_steady_timestamp.time_since_epoch()).count();
    l.span->FinishWithOptions(*o);
  } else {
    l.span->Finish();
  }
  if (l.finished) return;
  l.finished = true;
  l.e.micros = (uint64_t)((fin - l.start_steady) / 1000);
  if (o) for (auto& r : o->log_records) {
    Expect::L x{std::chrono::duration_cast<std::chrono::nanoseconds>(r.timestamp.time_since_epoch()).count(), {}};
    for (auto& f : r.fields) x.fields.push_back(f);
    l.e.logs.push_back(x);
  }
  if (l.sampled) done.push_back(l.e);
}
int64_t SysNs(opentracing::SystemTime t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
opentracing::SystemTime Sys(int64_t ns) { return opentracing::SystemTime{std::chrono::duration_cast<opentracing::SystemClock::duration>(std::chrono::nanoseconds{ns})}; }
opentracing::SteadyTime Std(int64_t ns) { return opentracing::SteadyTime{std::chrono::nanoseconds{ns}}; }
}  // namespace
MC_SCENARIO(histories, 0, 0) {
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  World w{mc::choose(2, "tracer") == 1};
  Live l;
  opentracing::StartSpanOptions so;
  if (mc::choose(2, "start tag")) { so.tags.emplace_back("s", Value{7}); so.tags.emplace_back("t", Value{"x"}); l.e.tags.assign(so.tags.begin(), so.tags.end()); }
  l.e.name = "op";
  l.e.start_ns = clocks::system_ns();
  l.start_steady = clocks::steady_ns();
  l.span = w.tracer->StartSpanWithOptions("op", so);
  MC_CHECK(l.span, "no span");
  Init(l);
  std::vector<Expect> done;
  int depth = mc::thorough() ? 5 : 4;
  for (int i = 0; i < depth; ++i) {
    clocks::Advance(1000000 + i * 1500);
    int op = mc::choose(13, "op");
    if (op == 0) break;
    bool f = l.finished;
    auto name = [&](const char* n) { l.span->SetOperationName(n); if (!f) l.e.name = n; };
    auto tag = [&](const char* k, const Value& v) {
      l.span->SetTag(k, v);
      if (f) return;
      l.e.tags.emplace_back(k, v);
      if (std::string(k) == "sampling.priority") l.sampled = !(v == Value{0} || v == Value{0u});
    };
    auto bag = [&](const char* k, const char* lower, const char* v) { l.span->SetBaggageItem(k, v); if (!f) l.e.baggage[lower] = v; };
    switch (op) {
      case 1: name("renamed"); break;
      case 2: name(""); break;
      case 3: tag("k1", Value{1}); break;
      case 4: tag("k1", Value{Values{Value{1}, Value{"two"}}}); break;
      case 5: tag("sampling.priority", Value{0}); break;
      case 6: tag("sampling.priority", Value{1}); break;
      case 7: bag("Bag", "bag", "v1"); break;
      case 8: bag("bAG", "bag", ""); break;
      case 9: l.span->Log({}); if (!f) l.e.logs.push_back({clocks::system_ns(), {}}); break;
      case 10:
        l.span->Log({{"e", Value{"x"}}, {"n", Value{Dictionary{{"a", Value{1}}}}}, {"m", Value{Values{}}}});
        if (!f) l.e.logs.push_back({clocks::system_ns(), {{"e", Value{"x"}}, {"n", Value{Dictionary{{"a", Value{1}}}}}, {"m", Value{Values{}}}}});
        break;
      case 11: DoFinish(l, done, nullptr); break;
      case 12: {
        opentracing::FinishSpanOptions o;
        if (mc::choose(2, "given time")) o.finish_steady_timestamp = Std(clocks::steady_ns() + 77000);
        o.log_records.push_back({Sys(1500000000000000000ll), {{"a", Value{1.5}}, {"j", Value{Values{Value{true}}}}}});
        o.log_records.push_back({Sys(1500000000999999999ll), {}});
        DoFinish(l, done, &o);
        break;
      }
    }
    if (!l.finished) {
      std::string b = l.span->BaggageItem("BAG");
      MC_CHECK(b == (l.e.baggage.count("bag") ? l.e.baggage["bag"] : ""), "BaggageItem reads \"%s\", last set \"%s\"", b.c_str(), l.e.baggage["bag"].c_str());
      size_t n = 0;
      l.span->context().ForeachBaggageItem([&](const std::string& k, const std::string& v) { ++n; MC_CHECK(l.e.baggage.count(k) && l.e.baggage[k] == v, "iteration shows %s=%s", k.c_str(), v.c_str()); return true; });
      MC_CHECK(n == l.e.baggage.size(), "iteration shows %zu items, expected %zu", n, l.e.baggage.size());
    }
  }
  clocks::Advance(5000);
  if (!l.finished) {
    l.finished = true;
    l.e.micros = (uint64_t)((clocks::steady_ns() - l.start_steady) / 1000);
    if (l.sampled) done.push_back(l.e);
  }
  l.span.reset();
  auto got = w.Spans();
  MC_CHECK(got.size() == done.size(), "%zu spans reported, expected %zu", got.size(), done.size());
  for (size_t i = 0; i < got.size(); ++i) Check(got[i], done[i]);
  mc::evaluated();
  mc::state(mc::hash(w.reports.empty() ? std::string() : w.reports[0].substr(0, 0) + l.e.name, l.e.tags.size() * 100 + l.e.logs.size() * 10 + l.e.baggage.size()));
}
// Field lengths across the stream's internal blocks: an operation name of every
// length moves every following write over every block offset.
MC_SCENARIO(lengths, 0, 0) {
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  int from = mc::choose(12, "length/50") * 50;
  int kind = mc::choose(mc::thorough() ? 16 : 16, "second");
  bool legacy = mc::choose(2, "tracer") == 1;
  static const int kLen[] = {0, 1, 127, 128, 129, 240, 255, 256, 257, 300, 512, 1024, 16383, 16384};
  int len = kLen[mc::choose(14, "field length")];
  for (int n = from; n < from + 50; ++n) {
    World w{legacy};
    Live l;
    std::string big;
    for (int i = 0; i < len; ++i) big.push_back((char)('A' + (i * 7 + i / 26) % 26));
    std::string nm;
    for (int i = 0; i < n; ++i) nm.push_back((char)('a' + (i * 3 + i / 26) % 26));
    l.e.name = nm;
    opentracing::StartSpanOptions so;
    l.e.start_ns = clocks::system_ns();
    l.start_steady = clocks::steady_ns();
    SpanPtr parent;
    if (kind >= 14) {
      parent = w.tracer->StartSpan("p");
      so.references.emplace_back(kind == 14 ? opentracing::SpanReferenceType::ChildOfRef : opentracing::SpanReferenceType::FollowsFromRef, &parent->context());
      parent->SetTag("sampling.priority", Value{0});
      so.tags.emplace_back("sampling.priority", Value{1});
      l.e.tags.emplace_back("sampling.priority", Value{1});
      auto& c = Ctx(parent->context());
      l.e.refs.push_back({kind == 14, c.trace_id_low(), c.span_id()});
    }
    if (kind == 13) { so.tags.emplace_back(big, Value{"v"}); l.e.tags.emplace_back(big, Value{"v"}); }
    l.span = w.tracer->StartSpanWithOptions(nm, so);
    Init(l);
    auto tag = [&](const std::string& k, const Value& v) { l.span->SetTag(k, v); l.e.tags.emplace_back(k, v); };
    auto log = [&](const std::string& k, const Value& v) { l.span->Log({{"pre", Value{1}}, {k, v}, {"post", Value{"z"}}}); l.e.logs.push_back({clocks::system_ns(), {{"pre", Value{1}}, {k, v}, {"post", Value{"z"}}}}); };
    switch (kind) {
      case 0: tag("k", Value{big}); break;
      case 1: tag(big, Value{true}); break;
      case 2: tag(big, Value{(int64_t)-1}); break;
      case 3: tag(big, Value{2.5}); break;
      case 4: tag("k", Value{Values{Value{big}, Value{1}}}); break;
      case 5: log("k", Value{big}); break;
      case 6: log(big, Value{~0ull}); break;
      case 7: log(big, Value{Dictionary{{"k", Value{big}}}}); break;
      case 8: l.span->SetBaggageItem("k", big); l.e.baggage["k"] = big; break;
      case 9: if (len) { std::string low = big; for (auto& c : low) c |= 32; l.span->SetBaggageItem(big, "v"); l.span->SetBaggageItem("a", big); l.e.baggage[low] = "v"; l.e.baggage["a"] = big; } break;
      case 10: l.span->SetOperationName(big); l.e.name = big; break;
      case 11: l.span->SetTag("x", Value{big.c_str()}); l.e.tags.emplace_back("x", Value{big}); break;
      case 12: tag("k", Value{nullptr}); tag(big, Value{big}); tag("k", Value{big}); break;
      default: tag("after", Value{big}); break;
    }
    std::vector<Expect> done;
    clocks::Advance(kind % 2 ? 123456789000ll : 1000);
    DoFinish(l, done, nullptr);
    if (parent) parent->Finish();
    auto got = w.Spans();
    MC_CHECK(got.size() == 1, "%zu spans reported", got.size());
    Check(got[0], done[0]);
    mc::evaluated();
  }
}
// Spans may be built interleaved and reported together.
MC_SCENARIO(interleaved, 0, 0) {
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  World w{mc::choose(2, "tracer") == 1};
  Live l[2];
  std::vector<Expect> done;
  auto start = [&](int k) {
    l[k].e = Expect{};
    l[k].finished = false;
    l[k].e.name = k ? "one" : "zero";
    l[k].e.start_ns = clocks::system_ns();
    l[k].start_steady = clocks::steady_ns();
    l[k].span = w.tracer->StartSpan(l[k].e.name);
    Init(l[k]);
  };
  int depth = mc::thorough() ? 8 : 7;
  for (int i = 0; i < depth; ++i) {
    clocks::Advance(1001000);
    int k = mc::choose(2, "which");
    if (!l[k].span) { start(k); continue; }
    switch (mc::choose(4, "op")) {
      case 0: l[k].span->SetTag("i", Value{i}); l[k].e.tags.emplace_back("i", Value{i}); break;
      case 1: DoFinish(l[k], done, nullptr); l[k].span.reset(); break;
      case 2: l[k].span->Log({{"i", Value{i}}}); l[k].e.logs.push_back({clocks::system_ns(), {{"i", Value{i}}}}); break;
      case 3: MC_CHECK(w.tracer->Flush(), "flush"); break;
    }
  }
  for (auto& x : l) if (x.span) { DoFinish(x, done, nullptr); x.span.reset(); }
  auto got = w.Spans();
  MC_CHECK(got.size() == done.size(), "%zu spans reported, expected %zu", got.size(), done.size());
  for (size_t i = 0; i < got.size(); ++i) Check(got[i], done[i]);
  mc::evaluated();
}
MC_SCENARIO(times, 0, 0) {
  static const int64_t kStart[] = {0, 1, 999999999, 1000000000, 1000000001, 1234567890123456789ll, 1599999999999999999ll};
  static const int64_t kDur[] = {0, 1, 999, 1000, 1001, 127000, 128000, 999999999, 1000000000, 16383000, 16384000, 3600000000000ll, 9000000000000000000ll};
  clocks::Set(1600000000123456789ll, 5000000000777ll);
  World w{mc::choose(2, "tracer") == 1};
  opentracing::StartSpanOptions so;
  int64_t s = kStart[mc::choose(7, "system start")];
  int given = mc::choose(4, "given");
  int64_t st = mc::choose(2, "steady start") ? 1000 : 4000000000123ll;
  int64_t dur = kDur[mc::choose(13, "duration")];
  if (given & 1) so.start_system_timestamp = Sys(s);
  if (given & 2) so.start_steady_timestamp = Std(st);
  if (!(given & 1) && s) return;
  if (!(given & 2) && st != 1000) return;
  int64_t off = clocks::system_ns() - clocks::steady_ns();
  // A time of zero means "not given".
  bool gs = (given & 1) && s, gt = (given & 2);
  Expect e;
  e.name = "n";
  int64_t steady;
  if (gs && gt) { e.start_ns = s; steady = st; }
  else if (gs) { e.start_ns = s; steady = s - off; }
  else if (gt) { e.start_ns = st + off; steady = st; }
  else { e.start_ns = clocks::system_ns(); steady = clocks::steady_ns(); }
  auto span = w.tracer->StartSpanWithOptions("n", so);
  auto& c = Ctx(span->context());
  e.trace = c.trace_id_low();
  e.span = c.span_id();
  opentracing::FinishSpanOptions o;
  int64_t fin;
  if (__builtin_add_overflow(steady, dur, &fin) || fin == 0) return;
  bool explicit_ = mc::choose(2, "finish given");
  if (explicit_) o.finish_steady_timestamp = Std(fin);
  else clocks::steady_ns() = fin;
  span->FinishWithOptions(o);
  e.micros = (uint64_t)(dur / 1000);
  auto got = w.Spans();
  MC_CHECK(got.size() == 1, "%zu spans", got.size());
  Check(got[0], e);
  mc::evaluated();
}

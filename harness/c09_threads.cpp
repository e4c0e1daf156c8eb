// mc: variant=mct
// C09: operations on one span from several threads, every schedule.
#include <thread>
#include "entropy.h"
#include "propagation.h"
#include "threads.h"
using namespace prop;
namespace {
enum Op { kTag, kLog, kName, kBag, kFinish, kReadBag, kInject, kForeach, kChild, kUnsample, kIds, kOps };
const int kMaxReports = 8;
struct Recording : Recorder {
  struct Slot { std::string bytes; int thread; };
  mutable Slot slots[kMaxReports];
  mutable std::atomic<int> n{0};
  void Put(const std::string& s) const {
    int i = n.fetch_add(1, std::memory_order_relaxed);
    if (i < kMaxReports) slots[i].bytes = s, slots[i].thread = mc::thread_index();
  }
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&& s) noexcept override {
    s->CloseOutput();
    std::string b;
    s->ForEachFragment([&](void* p, int k) { b.append((const char*)p, k); return true; });
    Put(b);
  }
  void RecordSpan(const collector::Span& s) noexcept override { Put(s.SerializeAsString()); }
  int Count() const { return n.load(std::memory_order_relaxed); }
};
struct Done {
  Op op;
  int thread, start, end;
  std::string key, value;        // written, or read
  Bag all;                       // baggage seen
  bool sampled;
};
struct Run_ {
  Recording* rec;
  std::shared_ptr<LightStepTracer> tracer;
  std::unique_ptr<opentracing::Span> span;
  std::atomic<int> clock{0};
  uint64_t trace, id;
  std::vector<Done> done[4];
  int Tick() { return clock.fetch_add(1, std::memory_order_relaxed); }
  void Do(int t, int k, Op op) {
    Done d{op, t, 0, 0, std::string(1, 'a' + t) + std::to_string(k), std::string(1, 'A' + t) + std::to_string(k), {}, false};
    { mc::NoPreempt np; d.start = Tick(); }
    switch (op) {
      case kTag: span->SetTag(d.key, d.value); break;
      case kLog: span->Log({{d.key, d.value}}); break;
      case kName: span->SetOperationName(d.value); break;
      case kBag: span->SetBaggageItem("bag", d.value); break;
      case kFinish: {
        opentracing::FinishSpanOptions o;
        o.log_records.push_back({std::chrono::system_clock::time_point(std::chrono::seconds(1)), {{"final" + d.key, d.value}}});
        span->FinishWithOptions(o);
        break;
      }
      case kReadBag: d.value = span->BaggageItem("Bag"); break;
      case kInject: {
        Out<opentracing::TextMapWriter> o;
        MC_CHECK((bool)tracer->Inject(span->context(), o), "injection failed");
        Context c;
        MC_CHECK((Rules{false, false}.Mode(PropagationMode::lightstep, o.h, c)) == kContext, "injected nonsense: %s", Show(o.h).c_str());
        MC_CHECK(c.low == trace && c.span == id, "injected other ids");
        d.sampled = *c.flag_choices.begin();
        for (auto& x : c.baggage) d.all[x.first] = *x.second.begin();
        break;
      }
      case kForeach:
        span->context().ForeachBaggageItem([&](const std::string& k, const std::string& v) { d.all[k] = v; return true; });
        d.sampled = true;
        break;
      case kChild: {
        auto c = spans::Child(*tracer, "child", &span->context());
        auto& x = Ctx(c->context());
        MC_CHECK(x.trace_id_low() == trace && x.span_id() != id, "child ids");
        d.sampled = x.sampled();
        x.ForeachBaggageItem([&](const std::string& k, const std::string& v) { d.all[k] = v; return true; });
        c->SetTag("sampling.priority", 0);
        c->SetBaggageItem("bag", "of the child");
        break;
      }
      case kUnsample: d.key = "sampling.priority"; span->SetTag("sampling.priority", 0); break;
      case kIds: {
        auto& x = Ctx(span->context());
        MC_CHECK(x.trace_id_low() == trace && x.span_id() == id && x.trace_id_high() == 0 && x.trace_state().empty(), "ids changed");
        d.sampled = x.sampled();
        break;
      }
      default: break;
    }
    { mc::NoPreempt np; d.end = Tick(); }
    done[t].push_back(d);
  }
};
void Run(bool legacy, const std::vector<std::vector<Op>>& prog, bool unfinished = true) {
  Run_ r;
  {
    mc::NoPreempt np;
    if (!entropy::shared_()) entropy::fresh();
    r.rec = new Recording;
    auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
    LightStepTracerOptions o;
    if (legacy) r.tracer = std::make_shared<LegacyTracerImpl>(logger, MakePropagationOptions(o), std::unique_ptr<Recorder>{r.rec});
    else r.tracer = std::make_shared<TracerImpl>(logger, MakePropagationOptions(o), std::unique_ptr<Recorder>{r.rec});
    r.span = r.tracer->StartSpan("start");
    r.span->SetBaggageItem("bag", "0");
    auto& c = Ctx(r.span->context());
    r.trace = c.trace_id_low();
    r.id = c.span_id();
  }
  std::vector<std::thread> ts;
  for (size_t t = 1; t < prog.size(); ++t)
    ts.emplace_back([&, t] { for (size_t k = 0; k < prog[t].size(); ++k) r.Do((int)t, (int)k, prog[t][k]); });
  for (size_t k = 0; k < prog[0].size(); ++k) r.Do(0, (int)k, prog[0][k]);
  for (auto& t : ts) t.join();
  mc::NoPreempt np;
  int before = r.rec->Count();
  int destroy = r.Tick();
  r.span.reset();
  int destroyed = r.Tick(), after = r.rec->Count();
  std::vector<Done> all;
  for (auto& d : r.done) all.insert(all.end(), d.begin(), d.end());
  std::vector<const Done*> fin, uns, bags, names;
  for (auto& d : all) {
    if (d.op == kFinish) fin.push_back(&d);
    if (d.op == kUnsample) uns.push_back(&d);
    if (d.op == kBag) bags.push_back(&d);
    if (d.op == kName) names.push_back(&d);
  }
  // The time before which every operation surely had its effect.
  int first_finish = destroy;
  for (auto f : fin) first_finish = std::min(first_finish, f->start);
  // reports: at most one; exactly one if nothing unsampled it in time
  MC_CHECK(after <= 1, "the span was reported %d times", after);
  if (!fin.empty()) MC_CHECK(before == after, "the span was reported by its destruction although it was finished");
  const Done* by = nullptr;
  if (after == 1 && before == 1) {
    int t = r.rec->slots[0].thread;
    int best = 0;
    for (auto f : fin)
      if (f->thread == t && (!best++)) by = f;
    MC_CHECK(by, "the span was reported by a thread that did not finish it");
  }
  int fs = by ? by->start : destroy, fe = by ? by->end : destroyed;
  if (after == 0) {
    int last = fin.empty() ? destroyed : 0;
    for (auto f : fin) last = std::max(last, f->end);
    bool could = false;
    for (auto u : uns) could |= u->start < last;
    MC_CHECK(could, "the span was never reported");
  }
  for (auto u : uns) if (after) MC_CHECK(u->end > fs, "a span unsampled before it was finished was reported");
  auto maybe_ignored = [&](const Done* d) { return d->end > first_finish; };
  // a value of the register written by `writes` seen in [s, e]
  auto visible = [&](const std::vector<const Done*>& writes, const std::string& initial, const std::string& seen, int s, int e) {
    auto overwritten = [&](int from) {
      for (auto w : writes)
        if (w->start > from && w->end < s && !maybe_ignored(w)) return true;
      return false;
    };
    if (seen == initial && !overwritten(-1)) return true;
    for (auto w : writes)
      if (w->value == seen && w->start < e && !overwritten(w->end)) return true;
    return false;
  };
  for (auto& d : all) {
    if (d.op == kReadBag) MC_CHECK(visible(bags, "0", d.value, d.start, d.end), "baggage read \"%s\"", d.value.c_str());
    if (d.op == kInject || d.op == kForeach || d.op == kChild) {
      MC_CHECK(d.all.size() == 1 && d.all.count("bag"), "baggage seen has %zu items", d.all.size());
      MC_CHECK(visible(bags, "0", d.all["bag"], d.start, d.end), "baggage seen \"%s\"", d.all["bag"].c_str());
    }
    if (d.op == kInject || d.op == kChild || d.op == kIds) {
      bool surely = false, could = false;
      for (auto u : uns) { surely |= u->end < d.start && !maybe_ignored(u); could |= u->start < d.end; }
      MC_CHECK(!(surely && d.sampled) && (could || d.sampled), "sampling decision seen %d", d.sampled);
    }
  }
  std::string o = std::to_string(after);
  if (after) {
    auto s = wire::ReadSpan(r.rec->slots[0].bytes);
    MC_CHECK(s.contexts == 1 && s.starts == 1 && s.c.trace == r.trace && s.c.span == r.id, "ids of the reported span");
    MC_CHECK(visible(names, "start", s.name, fs, fe), "the reported name is \"%s\"", s.name.c_str());
    MC_CHECK(s.c.baggage.size() == 1 && visible(bags, "0", s.c.baggage["bag"], fs, fe), "the reported baggage is \"%s\"", s.c.baggage["bag"].c_str());
    std::map<std::string, int> seen;
    std::vector<int> last(4, -1);
    for (auto& t : s.tags) {
      bool found = false;
      for (auto& d : all)
        if ((d.op == kTag || d.op == kUnsample) && d.key == t.key) {
          if (d.op == kTag) wire::CheckKV(t, d.key, opentracing::Value{d.value}, "reported");
          if (d.op == kUnsample && d.start < fe) { found = true; continue; }
          MC_CHECK(d.start < fe, "a tag set after the finish is reported");
          MC_CHECK(d.start > last[d.thread], "tags of one thread are out of order");
          last[d.thread] = d.start;
          found = true;
        }
      MC_CHECK(found, "reported tag %s was never set", t.key.c_str());
      if (t.key == "sampling.priority") mc::fail("the reported span was unsampled before");
      MC_CHECK(!seen[t.key]++, "tag %s is reported twice", t.key.c_str());
    }
    int finals = 0;
    for (auto& l : s.logs) {
      MC_CHECK(l.fields.size() == 1, "a log record with %zu fields", l.fields.size());
      std::string k = l.fields[0].key;
      if (k.compare(0, 5, "final") == 0) { ++finals; MC_CHECK(by && k == "final" + by->key, "the report has the log records of another finish"); continue; }
      bool found = false;
      for (auto& d : all)
        if (d.op == kLog && d.key == k) { found = true; MC_CHECK(d.start < fe, "a log record made after the finish is reported"); wire::CheckKV(l.fields[0], k, opentracing::Value{d.value}, "reported"); }
      MC_CHECK(found && !seen["log" + k]++, "log record %s", k.c_str());
    }
    MC_CHECK(finals == (by ? 1 : 0), "%d final log records", finals);
    for (auto& d : all) {
      if (d.end > fs) continue;
      if (d.op == kTag) MC_CHECK(seen[d.key], "tag %s, set before the finish, is not reported", d.key.c_str());
      if (d.op == kLog) MC_CHECK(seen["log" + d.key], "log record %s, made before the finish, is not reported", d.key.c_str());
    }
    o += s.name + s.c.baggage["bag"];
    for (auto& x : seen) if (x.second) o += x.first;
  }
  r.tracer.reset();
  mc::outcome(o);
  mc::evaluated();
}
}  // namespace
// Every pair of programs of up to two operations.
MC_THREADS(programs, 2, 3) {
  bool legacy = mc::choose(2, "legacy");
  Op a = (Op)mc::choose(kOps, "first"), c = (Op)mc::choose(kOps, "other"), b = (Op)mc::choose(kOps + 1, "second"), d = (Op)mc::choose(kOps + 1, "other second");
  std::vector<std::vector<Op>> p{{a}, {c}};
  if (b != kOps) p[0].push_back(b);
  if (d != kOps) p[1].push_back(d);
  Run(legacy, p);
}
MC_THREADS(tags_finish, 5, 7) { Run(mc::choose(2, "legacy"), {{kTag, kLog, kFinish}, {kTag, kTag, kTag}}); }
MC_THREADS(finishes, 3, 5) { Run(mc::choose(2, "legacy"), {{kTag, kFinish}, {kFinish, kTag}, {kFinish}}); }
MC_THREADS(three_writers, 4, 6) { Run(mc::choose(2, "legacy"), {{kBag, kTag}, {kBag, kLog}, {kName, kFinish}}); }
MC_THREADS(readers, 3, 5) { Run(mc::choose(2, "legacy"), {{kBag, kBag}, {kInject, kReadBag}, {kChild, kForeach}}); }
MC_THREADS(sampling, 3, 5) { Run(mc::choose(2, "legacy"), {{kUnsample, kIds}, {kFinish}, {kInject, kChild}}); }

// mc: variant=asan wrap=pthread_atfork
// C14: which recorders hear of a fork, over every history of creating,
// destroying and forking; what manual recorders do then.
#include "spans.h"
#include "recorder/fork_aware_recorder.h"
using namespace lightstep;
namespace {
struct Handler {
  void (*prepare)();
  void (*parent)();
  void (*child)();
};
std::vector<Handler>* handlers;
}  // namespace
extern "C" int __wrap_pthread_atfork(void (*prepare)(), void (*parent)(), void (*child)()) {
  if (!handlers) handlers = new std::vector<Handler>;
  for (auto& h : *handlers)
    if (h.prepare == prepare && h.parent == parent && h.child == child) return 0;
  MC_CHECK(handlers->size() < 8, "more and more handlers of fork are registered");
  handlers->push_back({prepare, parent, child});
  return 0;
}
namespace {
std::vector<std::pair<int, char>>* heard;
struct Fake : ForkAwareRecorder {
  int id;
  explicit Fake(int i) : id(i) {}
  Fragment ReserveHeaderSpace(ChainedStream&) override { return {}; }
  void WriteFooter(google::protobuf::io::CodedOutputStream&) override {}
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override {}
  void PrepareForFork() noexcept override { heard->push_back({id, 'b'}); }
  void OnForkedParent() noexcept override { heard->push_back({id, 'p'}); }
  void OnForkedChild() noexcept override { heard->push_back({id, 'c'}); }
};
void Fork(bool child) {
  if (!handlers) return;
  for (size_t i = handlers->size(); i--;)
    if ((*handlers)[i].prepare) (*handlers)[i].prepare();
  for (auto& h : *handlers)
    if (auto f = child ? h.child : h.parent) f();
}
}  // namespace

MC_SCENARIO(registered, 0, 0) {
  std::vector<std::pair<int, char>> h;
  heard = &h;
  std::unique_ptr<Fake> r[4];
  int depth = mc::thorough() ? 9 : 7, forks = 0, next = 0;
  int id[4] = {-1, -1, -1, -1};
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(6, "operation");
    if (op < 4) {
      if (r[op]) {
        mc::log("destroy %d", id[op]);
        r[op].reset();
      } else {
        id[op] = next++;
        mc::log("create %d", id[op]);
        r[op].reset(new Fake{id[op]});
      }
      MC_CHECK(h.empty(), "a recorder is told of a fork when there was none");
    } else {
      bool child = op == 5;
      mc::log(child ? "fork, child" : "fork, parent");
      ++forks;
      Fork(child);
      for (int k = 0; k < 4; ++k)
        for (char c : {'b', 'p', 'c'}) {
          int n = 0;
          for (auto& x : h) n += r[k] && x.first == id[k] && x.second == c;
          int want = r[k] && (c == 'b' || c == (child ? 'c' : 'p'));
          MC_CHECK(n == want, "recorder %d is told %d times (%c)", id[k], n, c);
        }
      size_t active = 0;
      for (auto& x : r) active += x != nullptr;
      MC_CHECK(h.size() == 2 * active, "%zu notices for %zu recorders", h.size(), active);
      for (size_t k = 0; k < h.size(); ++k) MC_CHECK((h[k].second == 'b') == (k < active), "a recorder is told of the end of a fork before all were told of its beginning");
      h.clear();
    }
    mc::evaluated();
  }
  uint64_t s = 3;
  for (auto& x : r) s = mc::mix(s, x != nullptr);
  mc::state(s);
  // the rest goes in any order
  while (true) {
    std::vector<int> live;
    for (int k = 0; k < 4; ++k)
      if (r[k]) live.push_back(k);
    if (live.empty()) break;
    r[live[mc::choose((int)live.size(), "destroyed first")]].reset();
  }
  mc::outcome(std::to_string(forks) + " forks, " + std::to_string(next) + " recorders");
  heard = nullptr;
}
// Spans of the parent are not reported by the child; the parent reports them once.
MC_SCENARIO(manual, 0, 0) {
  auto options = [] {
    LightStepTracerOptions o;
    o.max_buffered_spans = (size_t)2;
    return o;
  };
  spans::World w[2] = {{false, MakePropagationOptions(LightStepTracerOptions{}), options()}, {false, MakePropagationOptions(LightStepTracerOptions{}), options()}};
  std::vector<std::string> expected[2];
  int dropped[2] = {0, 0};
  int depth = mc::thorough() ? 9 : 7, n = 0;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(6, "operation");
    if (op < 2) {
      std::string name = "span" + std::to_string(n++);
      w[op].tracer->StartSpan(name)->Finish();
      if (expected[op].size() < 2) expected[op].push_back(name);
      else ++dropped[op];
    }
    if (op == 2 || op == 3) {
      Fork(op == 3);
      if (op == 3)
        for (int k = 0; k < 2; ++k) expected[k].clear(), dropped[k] = 0;
    }
    if (op >= 4) {
      w[op - 4].reports.clear();
      auto got = w[op - 4].Spans();
      MC_CHECK(got.size() == expected[op - 4].size(), "%zu spans are reported, %zu should", got.size(), expected[op - 4].size());
      for (size_t k = 0; k < got.size(); ++k) MC_CHECK(got[k].name == expected[op - 4][k], "span %s is reported, %s should", got[k].name.c_str(), expected[op - 4][k].c_str());
      int64_t told = 0;
      for (auto& b : w[op - 4].reports)
        for (auto& c : wire::ReadReport(b).counts) told += c.first == "spans.dropped" ? c.second : 0;
      MC_CHECK(told == dropped[op - 4], "%ld dropped spans are reported, there were %d", (long)told, dropped[op - 4]);
      expected[op - 4].clear();
      dropped[op - 4] = 0;
    }
    mc::evaluated();
  }
  mc::outcome(std::to_string(n) + " spans");
}

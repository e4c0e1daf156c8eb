// mc: variant=mct
// C01/C28: the multi-producer single-consumer span buffer and its slot type,
// every schedule of small producer/consumer programs.
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "common/circular_buffer.h"
#include "mc.h"
#include "threads.h"

using namespace lightstep;
namespace {
struct Item {
  int producer, seq;
  bool* alive;
  int canary = 0x5a5a;
  Item(int p, int s, bool* a) : producer(p), seq(s), alive(a) {
    MC_CHECK(!*alive, "item constructed twice");
    *alive = true;
  }
  ~Item() {
    MC_CHECK(*alive && canary == 0x5a5a, "item of producer %d destroyed twice", producer);
    *alive = false;
    canary = 0;
  }
};

struct Result {
  std::vector<int> accepted;  // seqs
};

// max: capacity; np producers adding na items each; consumer performs `rounds`
// peek/consume rounds taking at most `take` items and a final drain.
void Run(int max, int np, int na, int rounds, int take, bool use_clear) {
  bool alive[4][4] = {};
  std::vector<std::pair<int, int>> consumed;
  Result res[4];
  {
    CircularBuffer<Item> buf{(size_t)max};
    MC_CHECK(buf.max_size() == (size_t)max, "max_size");
    auto produce = [&](int p) {
      for (int i = 0; i < na; ++i) {
        std::unique_ptr<Item> it{new Item{p, i, &alive[p][i]}};
        Item* raw = it.get();
        int64_t c0;
        {
          mc::NoPreempt np_;
          c0 = buf.consumption_count();
        }
        bool ok = buf.Add(it);
        if (ok) {
          MC_CHECK(it == nullptr, "accepted element still owned by the producer");
          res[p].accepted.push_back(i);
        } else {
          MC_CHECK(it.get() == raw && alive[p][i], "refused element not left with the producer");
          int64_t a1;
          {
            mc::NoPreempt np_;
            a1 = buf.production_count();
          }
          MC_CHECK(a1 - c0 >= max, "element refused although at most %d of %d slots were used", (int)(a1 - c0), max);
        }
      }
    };
    std::vector<std::thread> ts;
    for (int p = 0; p < np; ++p) ts.emplace_back(produce, p);
    auto drain = [&](size_t limit) {
      size_t sz = buf.size();
      MC_CHECK(sz <= (size_t)max, "buffer holds %zu > %d", sz, max);
      size_t seen = 0;
      auto range = buf.Peek();
      MC_CHECK(range.size() <= (size_t)max, "peek shows %zu > %d", range.size(), max);
      std::vector<std::pair<int, int>> peeked;
      bool r = range.ForEach([&](const AtomicUniquePtr<Item>& p) {
        MC_CHECK(!p.IsNull(), "a buffered slot is empty");
        peeked.emplace_back(p->producer, p->seq);
        ++seen;
        return true;
      });
      MC_CHECK(r && seen == range.size(), "iteration stopped early");
      MC_CHECK(range.empty() == (seen == 0), "empty()");
      size_t n = std::min(seen, limit);
      size_t got = 0;
      buf.Consume(n, [&](CircularBufferRange<AtomicUniquePtr<Item>> rg) noexcept {
        rg.ForEach([&](AtomicUniquePtr<Item> & slot) noexcept {
          MC_CHECK(!slot.IsNull(), "consumed slot empty");
          std::unique_ptr<Item> out;
          slot.Swap(out);
          MC_CHECK(out && *out->alive, "consumed element dead");
          MC_CHECK(got < peeked.size() && peeked[got] == std::make_pair(out->producer, out->seq),
                   "consumed element differs from the peeked one");
          consumed.emplace_back(out->producer, out->seq);
          ++got;
          return true;
        });
      });
      MC_CHECK(got == n, "consume(%zu) delivered %zu", n, got);
    };
    for (int r = 0; r < rounds; ++r) drain(take);
    for (auto& t : ts) t.join();
    if (use_clear) {
      auto range = buf.Peek();
      range.ForEach([&](const AtomicUniquePtr<Item>& p) {
        consumed.emplace_back(p->producer, p->seq);
        return true;
      });
      buf.Clear();
    } else
      drain(100);
    MC_CHECK(buf.empty() && buf.size() == 0, "buffer not empty after a drain");
    MC_CHECK(buf.production_count() == (int64_t)consumed.size() && buf.consumption_count() == (int64_t)consumed.size(),
             "counts %d/%d, consumed %zu", (int)buf.production_count(), (int)buf.consumption_count(), consumed.size());
  }
  std::string o;
  for (int p = 0; p < np; ++p) {
    std::vector<int> got;
    for (auto& c : consumed)
      if (c.first == p) got.push_back(c.second);
    MC_CHECK(got == res[p].accepted, "producer %d: %zu accepted, %zu consumed, or out of order", p, res[p].accepted.size(),
             got.size());
    for (int i = 0; i < na; ++i) MC_CHECK(!alive[p][i], "element %d of producer %d leaked", i, p);
    if ((int)res[p].accepted.size() < na && np * na <= max) mc::fail("refusal although everything fits");
  }
  for (auto& c : consumed) o += std::to_string(c.first) + std::to_string(c.second) + ",";
  o += "|";
  for (int p = 0; p < np; ++p) o += std::to_string(res[p].accepted.size());
  mc::outcome(o);
}
}  // namespace

MC_THREADS(ring_cap1_2p1_r1, 5, 7) { Run(1, 2, 1, 1, 9, false); }
MC_THREADS(ring_cap1_2p2_r2, 4, 5) { Run(1, 2, 2, 2, 9, false); }
MC_THREADS(ring_cap2_2p2_r2, 4, 5) { Run(2, 2, 2, 2, 1, false); }
MC_THREADS(ring_cap2_3p1_r2, 3, 4) { Run(2, 3, 1, 2, 9, false); }
MC_THREADS(ring_cap3_1p4_r2, 5, 7) { Run(3, 1, 4, 2, 2, true); }
MC_THREADS(ring_cap1_3p2_r2, 3, 4) { Run(1, 3, 2, 2, 9, true); }
MC_THREADS(ring_cap4_2p2_r1, 3, 5) { Run(4, 2, 2, 1, 1, true); }

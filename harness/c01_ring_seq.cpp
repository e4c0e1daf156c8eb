// mc: variant=asan
// C01: every sequence of add / partial consume / clear against a FIFO model.
#include <deque>
#include <memory>
#include "common/circular_buffer.h"
#include "mc.h"
using namespace lightstep;
namespace {
int live;
struct Item {
  int v;
  explicit Item(int x) : v(x) { ++live; }
  ~Item() { --live; }
};
void Run(int max, int depth) {
  live = 0;
  {
    CircularBuffer<Item> buf{(size_t)max};
    std::deque<int> model;
    int next = 0;
    long produced = 0, consumed = 0;
    for (int step = 0; step < depth; ++step) {
      // 0 add, 1 clear, 2 range checks, 3.. consume(k-3), then a consume that walks the range itself
      int op = mc::choose(4 + max, "op");
      if (op == 0) {
        std::unique_ptr<Item> it{new Item{next}};
        bool ok = buf.Add(it);
        bool want = (int)model.size() < max;
        mc::log("add %d -> %d", next, ok);
        MC_CHECK(ok == want, "add returned %d with %zu of %d buffered", ok, model.size(), max);
        if (ok) {
          model.push_back(next);
          ++produced;
          MC_CHECK(!it, "accepted element still owned");
        } else
          MC_CHECK(it && it->v == next, "refused element lost");
        ++next;
      } else if (op == 1) {
        mc::log("clear");
        buf.Clear();
        consumed += model.size();
        model.clear();
      } else if (op == 2) {
        // range operations
        auto range = buf.Peek();
        for (size_t k = 0; k <= model.size(); ++k) {
          auto sub = range.Take(k);
          MC_CHECK(sub.size() == k, "Take(%zu).size()=%zu", k, sub.size());
          size_t i = 0;
          bool r = sub.ForEach([&](const AtomicUniquePtr<Item>& p) {
            MC_CHECK(i < k && p->v == model[i], "Take order");
            ++i;
            return true;
          });
          MC_CHECK(r && i == k, "Take visited %zu of %zu", i, k);
          // early exit
          size_t j = 0;
          bool r2 = range.ForEach([&](const AtomicUniquePtr<Item>& p) {
            if (j == k) return false;
            MC_CHECK(p->v == model[j], "order");
            ++j;
            return true;
          });
          MC_CHECK(r2 == (k == model.size()) && j == k, "early exit");
        }
      } else {
        size_t k = op - 3;
        if (k > model.size()) k = model.size();
        bool walk = mc::choose(2, "walk");
        mc::log("consume %zu walk=%d", k, walk);
        if (walk) {
          size_t i = 0;
          buf.Consume(k, [&](CircularBufferRange<AtomicUniquePtr<Item>> r) noexcept {
            r.ForEach([&](AtomicUniquePtr<Item> & p) noexcept {
              std::unique_ptr<Item> o;
              p.Swap(o);
              MC_CHECK(o && i < k && o->v == model[i], "consume order");
              ++i;
              return true;
            });
          });
          MC_CHECK(i == k, "consume visited %zu of %zu", i, k);
        } else
          buf.Consume(k);
        for (size_t i = 0; i < k; ++i) model.pop_front();
        consumed += k;
      }
      MC_CHECK(buf.size() == model.size() && buf.empty() == model.empty(), "size %zu, model %zu", buf.size(), model.size());
      MC_CHECK(buf.production_count() == produced && buf.consumption_count() == consumed, "counts");
      size_t i = 0;
      buf.Peek().ForEach([&](const AtomicUniquePtr<Item>& p) {
        MC_CHECK(!p.IsNull() && i < model.size() && p->v == model[i], "contents differ at %zu", i);
        ++i;
        return true;
      });
      MC_CHECK(i == model.size(), "contents");
      MC_CHECK(live == (int)model.size(), "%d elements alive, %zu buffered", live, model.size());
      mc::evaluated();
      uint64_t h = mc::mix(max, buf.consumption_count() % (max + 1));
      h = mc::mix(h, model.size());
      mc::state(h);
    }
  }
  MC_CHECK(live == 0, "%d elements leaked", live);
}
}  // namespace
MC_SCENARIO(seq_cap1, 0, 0) { Run(1, mc::thorough() ? 10 : 8); }
MC_SCENARIO(seq_cap2, 0, 0) { Run(2, mc::thorough() ? 9 : 7); }
MC_SCENARIO(seq_cap3, 0, 0) { Run(3, mc::thorough() ? 8 : 7); }

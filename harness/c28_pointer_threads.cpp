// mc: variant=mct
// C28: the owning atomic pointer under every interleaving.
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "common/atomic_unique_ptr.h"
#include "mc.h"
#include "threads.h"
using namespace lightstep;
namespace {
struct Item {
  int id, canary = 0x77;
  int* alive;
  Item(int i, int* a) : id(i), alive(a) { ++*alive; }
  ~Item() {
    MC_CHECK(*alive == 1 && canary == 0x77, "element %d destroyed twice", id);
    canary = 0;
    --*alive;
  }
};
enum Op { PUT, PUTLOOP, TAKE, REPLACE, RESET, PEEK };
void Run(std::vector<std::vector<Op>> prog, bool filled) {
  static int alive[16];
  for (auto& a : alive) a = 0;
  int got[16] = {}, kept[16] = {};
  {
    AtomicUniquePtr<Item> p;
    if (filled) {
      std::unique_ptr<Item> it{new Item{15, &alive[15]}};
      p.Reset(it.release());
      MC_CHECK(!p.IsNull() && p.Get()->id == 15 && (*p).id == 15 && p->id == 15, "reset to an element");
    }
    auto body = [&](int t) {
      int n = 0;
      for (Op op : prog[t]) {
        int id = t * 4 + n++;
        switch (op) {
          case PUT:
          case PUTLOOP: {
            std::unique_ptr<Item> it{new Item{id, &alive[id]}};
            Item* raw = it.get();
            bool ok = p.SwapIfNull(it);
            for (int k = 0; op == PUTLOOP && !ok && k < 2; ++k) ok = p.SwapIfNull(it);
            if (ok) MC_CHECK(!it, "stored element still with its owner");
            else {
              MC_CHECK(it.get() == raw && it->canary == 0x77, "refused element not left with its owner");
              kept[id] = 1;
            }
            break;
          }
          case TAKE: {
            std::unique_ptr<Item> it;
            p.Swap(it);
            if (it) {
              MC_CHECK(it->canary == 0x77, "received element is not constructed");
              ++got[it->id];
            }
            break;
          }
          case REPLACE: {
            std::unique_ptr<Item> it{new Item{id, &alive[id]}};
            p.Swap(it);
            if (it) {
              MC_CHECK(it->id != id, "an exchange returns the element put in");
              MC_CHECK(it->canary == 0x77, "received element is not constructed");
              ++got[it->id];
            }
            break;
          }
          case RESET: p.Reset(); break;
          case PEEK: (void)p.IsNull(); break;
        }
      }
    };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < prog.size(); ++i) ts.emplace_back(body, (int)i);
    body(0);
    for (auto& t : ts) t.join();
    if (Item* r = p.Get()) {
      MC_CHECK(r->canary == 0x77 && alive[r->id] == 1 && !got[r->id] && !kept[r->id], "the held element has another owner");
    }
  }
  std::string o;
  for (int i = 0; i < 16; ++i) {
    MC_CHECK(!alive[i], "element %d is never freed", i);
    MC_CHECK(got[i] + kept[i] <= 1, "element %d has two owners", i);
    o += (char)('0' + got[i] + 2 * kept[i]);
  }
  mc::outcome(o);
  mc::evaluated();
}
}  // namespace
MC_THREADS(put_take, 6, 9) { Run({{PUT, PUT}, {TAKE, TAKE}}, false); }
MC_THREADS(put_put, 6, 8) { Run({{PUT}, {PUT}, {TAKE}}, false); }
MC_THREADS(put_put_reset, 6, 9) { Run({{PUTLOOP, RESET}, {PUTLOOP}, {PEEK, TAKE}}, true); }
MC_THREADS(replace_replace, 6, 9) { Run({{REPLACE, REPLACE}, {REPLACE, TAKE}}, true); }
MC_THREADS(reset_take, 6, 8) { Run({{RESET}, {TAKE}, {PUT}}, true); }
MC_THREADS(contend, 5, 7) { Run({{PUTLOOP, TAKE}, {PUTLOOP, TAKE}, {REPLACE}}, false); }
// Every pair of programs of two operations, and every triple of one.
MC_THREADS(pairs, 5, 8) {
  std::vector<std::vector<Op>> p(2);
  bool filled = mc::choose(2, "filled");
  for (auto& t : p)
    for (int i = 0; i < 2; ++i) t.push_back((Op)mc::choose(6, "operation"));
  Run(p, filled);
}
MC_THREADS(triples, 4, 6) {
  std::vector<std::vector<Op>> p(3);
  bool filled = mc::choose(2, "filled");
  for (auto& t : p) t.push_back((Op)mc::choose(6, "operation"));
  Run(p, filled);
}
MC_THREADS(longer_pairs, 2, 4) {
  std::vector<std::vector<Op>> p(2);
  bool filled = mc::choose(2, "filled");
  for (auto& t : p)
    for (int i = 0; i < 3; ++i) t.push_back((Op)mc::choose(6, "operation"));
  Run(p, filled);
}

// mc: variant=asan
// C28: all operation sequences of the owning atomic pointer in one thread.
#include <memory>
#include "common/atomic_unique_ptr.h"
#include "mc.h"
using namespace lightstep;
namespace {
int live;
struct Item {
  int id;
  explicit Item(int i) : id(i) { ++live; }
  ~Item() { --live; }
};
}  // namespace
MC_SCENARIO(sequences, 0, 0) {
  live = 0;
  {
    AtomicUniquePtr<Item> p;
    std::unique_ptr<Item> mine;
    int held = -1, own = -1, next = 0, total = 0;
    for (int step = 0, n = mc::thorough() ? 9 : 7; step < n; ++step) {
      switch (mc::choose(6, "op")) {
        case 0:
          own = next++;
          mine.reset(new Item{own});
          break;
        case 1:
          mine.reset();
          own = -1;
          break;
        case 2: {
          if (!mine) break;
          bool ok = p.SwapIfNull(mine);
          MC_CHECK(!(ok && held >= 0), "stored over a held element");
          // a conditional put may fail spuriously, but then nothing changed
          for (int k = 0; !ok && held < 0 && k < 64; ++k) ok = p.SwapIfNull(mine);
          MC_CHECK(ok == (held < 0), "put into an %s slot: %d", held < 0 ? "empty" : "occupied", ok);
          if (ok) { held = own; own = -1; }
          break;
        }
        case 3:
          p.Swap(mine);
          std::swap(held, own);
          break;
        case 4:
          p.Reset();
          held = -1;
          break;
        default:
          held = next++;
          p.Reset(new Item{held});
      }
      (void)total;
      MC_CHECK(p.IsNull() == (held < 0), "IsNull %d with element %d", p.IsNull(), held);
      MC_CHECK(held < 0 ? p.Get() == nullptr : (p.Get() && p->id == held && (*p).id == held), "holds another element than %d", held);
      MC_CHECK(own < 0 ? mine == nullptr : (mine && mine->id == own), "owner's element is not %d", own);
      MC_CHECK(live == (held >= 0) + (own >= 0), "%d elements live", live);
      mc::state((held >= 0) * 2 + (own >= 0));
      mc::evaluated();
    }
  }
  MC_CHECK(live == 0, "%d elements leaked", live);
}

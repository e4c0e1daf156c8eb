// mc: variant=asan
// C31: all operation sequences of the sorted map against std::map.
#include <functional>
#include <map>
#include <string>
#include "common/flat_map.h"
#include "mc.h"
using namespace lightstep;
namespace {
template <class Map, class Ref, class K>
void Compare(const Map& m, const Ref& ref, const K* keys, int nk) {
  MC_CHECK(m.empty() == ref.empty(), "empty() is %d with %zu keys", m.empty(), ref.size());
  auto it = m.begin();
  for (auto& kv : ref) {
    MC_CHECK(it != m.end(), "iteration ends early");
    MC_CHECK(it->first == kv.first && it->second == kv.second, "iteration differs from an ordered map");
    ++it;
  }
  MC_CHECK(it == m.end(), "iteration is longer than the map");
  MC_CHECK(m.as_vector().size() == ref.size(), "as_vector has %zu elements of %zu", m.as_vector().size(), ref.size());
  size_t i = 0;
  for (auto& kv : ref) {
    MC_CHECK(m.as_vector()[i].first == kv.first && m.as_vector()[i].second == kv.second, "as_vector differs");
    ++i;
  }
  for (int k = 0; k < nk; ++k) {
    auto f = m.find(keys[k]);
    auto r = ref.find(keys[k]);
    MC_CHECK((f != m.end()) == (r != ref.end()), "find of key %d: %d", k, f != m.end());
    if (r != ref.end()) MC_CHECK(f->first == r->first && f->second == r->second, "find of key %d returns another element", k);
  }
  mc::evaluated(1 + nk);
}
}  // namespace
MC_SCENARIO(strings, 0, 0) {
  static const std::string keys[] = {"", "a", "B", "aa", "b", std::string("a\0", 2), "\xff"};
  constexpr int nk = 7;
  FlatMap<std::string, std::string> m;
  std::map<std::string, std::string> ref;
  Compare(m, ref, keys, nk);
  uint64_t h = 0;
  for (int step = 0, n = mc::thorough() ? 7 : 6; step < n; ++step) {
    int k = mc::choose(nk, "key");
    std::string v = "value-long-enough-to-live-on-the-heap-" + std::to_string(step);
    auto it = m.insert_or_assign(std::string(keys[k]), std::string(v));
    ref[keys[k]] = v;
    MC_CHECK(it != m.end() && it->first == keys[k] && it->second == v, "insert_or_assign returns another element");
    Compare(m, ref, keys, nk);
    h = mc::mix(h, ref.size());
    mc::state(mc::hash(keys[k], h));
  }
}
MC_SCENARIO(integers, 0, 0) {
  static const int keys[] = {3, 1, 2, 0, -1, 2147483647, -2147483647 - 1};
  FlatMap<int, int> m;
  std::map<int, int> ref;
  for (int step = 0, n = mc::thorough() ? 7 : 6; step < n; ++step) {
    int k = mc::choose(7, "key");
    auto it = m.insert_or_assign(int(keys[k]), int(step));
    ref[keys[k]] = step;
    MC_CHECK(it != m.end() && it->first == keys[k] && it->second == step, "insert_or_assign returns another element");
    Compare(m, ref, keys, 7);
  }
}
MC_SCENARIO(other_order, 0, 0) {
  static const int keys[] = {3, 1, 2, 0, -1};
  FlatMap<int, int, std::greater<int>> m;
  std::map<int, int, std::greater<int>> ref;
  for (int step = 0, n = mc::thorough() ? 8 : 6; step < n; ++step) {
    int k = mc::choose(5, "key");
    m.insert_or_assign(int(keys[k]), int(step));
    ref[keys[k]] = step;
    Compare(m, ref, keys, 5);
  }
}
// copies are independent
MC_SCENARIO(copies, 0, 0) {
  static const std::string keys[] = {"a", "b", "c"};
  FlatMap<std::string, std::string> m[2];
  std::map<std::string, std::string> ref[2];
  for (int step = 0, n = mc::thorough() ? 6 : 5; step < n; ++step) {
    int i = mc::choose(2, "map");
    int op = mc::choose(5, "op");
    if (op < 3) {
      m[i].insert_or_assign(std::string(keys[op]), std::to_string(step));
      ref[i][keys[op]] = std::to_string(step);
    } else if (op == 3) {
      m[i] = m[1 - i];
      ref[i] = ref[1 - i];
    } else {
      m[i] = std::move(m[1 - i]);
      ref[i] = ref[1 - i];
      m[1 - i] = FlatMap<std::string, std::string>{};
      ref[1 - i].clear();
    }
    for (int k = 0; k < 2; ++k) Compare(m[k], ref[k], keys, 3);
  }
}

// mc: variant=asan
// C06: fragment streams as one cursor over bytes: layouts x operation sequences.
#include "streams.h"
using namespace lightstep;
namespace {
using Frags = std::vector<std::string>;
// the reference: remaining fragments
void ModelConsume(Frags& f, size_t n) {
  while (!f.empty() && n >= f[0].size()) {
    n -= f[0].size();
    f.erase(f.begin());
  }
  if (n) f[0].erase(0, n);
}
void Compare(const FragmentInputStream& s, const Frags& want, const char* when) {
  auto got = Fragments(s);
  MC_CHECK(Join(got) == Join(want), "%s: stream shows %zu bytes, %zu are left, or they differ", when, Join(got).size(), Join(want).size());
  MC_CHECK(s.num_fragments() == (int)got.size(), "%s: num_fragments %d, fragments shown %zu", when, s.num_fragments(), got.size());
  MC_CHECK(got.size() == want.size(), "%s: %zu fragments shown, expected %zu", when, got.size(), want.size());
  MC_CHECK(s.empty() == want.empty(), "%s: empty()", when);
  // interrupted iterations
  for (size_t k = 0; k < want.size(); ++k) {
    size_t i = 0;
    bool r = s.ForEachFragment([&](void*, int) { return i++ != k; });
    MC_CHECK(!r && i == k + 1, "%s: interruption at fragment %zu", when, k);
  }
  mc::evaluated();
}
size_t Total(const Frags& f) { return Join(f).size(); }

// one operation on stream s with model f; false when nothing can be done
void Step(FragmentInputStream& s, Frags& f, bool all_counts) {
  int op = mc::choose(3, "op");  // consume, seek, clear
  if (op == 0) {
    size_t t = Total(f);
    size_t n;
    if (all_counts) n = mc::choose((int)t + 1, "n");
    else {
      // boundaries of fragments
      std::vector<size_t> c{0, 1, t};
      size_t a = 0;
      for (auto& x : f) { a += x.size(); for (size_t d : {a - 1, a, a + 1}) if (d <= t) c.push_back(d); }
      n = c[mc::choose((int)c.size(), "n")];
      if (n > t) n = t;
    }
    bool r = Consume({&s}, (int)n);
    mc::log("consume %zu of %zu -> %d", n, t, r);
    MC_CHECK(r == (n == t), "consuming %zu of %zu returned %d", n, t, r);
    if (n == t) f.clear();
    else ModelConsume(f, n);
  } else if (op == 1) {
    std::vector<std::pair<int, int>> c;
    for (int i = 0; i < (int)f.size(); ++i)
      for (int p = 0; p < (int)f[i].size(); ++p)
        if (all_counts || p < 2 || p + 2 > (int)f[i].size()) c.emplace_back(i, p);
    if (c.empty()) return;
    auto t = c[mc::choose((int)c.size(), "seek")];
    mc::log("seek %d,%d", t.first, t.second);
    s.Seek(t.first, t.second);
    f.erase(f.begin(), f.begin() + t.first);
    f[0].erase(0, t.second);
  } else {
    mc::log("clear");
    s.Clear();
    f.clear();
  }
  Compare(s, f, "after an operation");
  mc::state(mc::mix(mc::hash(Join(f)), f.size()));
}
Frags ChooseLayout(int maxf, int maxlen, unsigned seed, int minlen = 0) {
  int n = mc::choose(maxf + 1, "fragments");
  Frags f;
  for (int i = 0; i < n; ++i) f.push_back(Pattern(minlen + mc::choose(maxlen + 1 - minlen, "len"), seed + i));
  return f;
}
void AssignArray(FragmentArrayInputStream& s, Frags& store) {
  auto fr = [&](int i) { return Fragment{(void*)store[i].data(), (int)store[i].size()}; };
  switch (store.size()) {
    case 0: s = std::initializer_list<Fragment>{}; break;
    case 1: s = {fr(0)}; break;
    case 2: s = {fr(0), fr(1)}; break;
    case 3: s = {fr(0), fr(1), fr(2)}; break;
    default: s = {fr(0), fr(1), fr(2), fr(3)};
  }
}
}  // namespace
// array stream: all layouts, three operations, re-assignment, further operations
MC_SCENARIO(array_ops, 0, 0) {
  Frags store = ChooseLayout(3, 2, 1);
  FragmentArrayInputStream s;
  Compare(s, {}, "fresh");
  AssignArray(s, store);
  Frags f = store;
  Compare(s, f, "assigned");
  for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i) Step(s, f, true);
  int again = mc::choose(2, "reassign");
  Frags store2{Pattern(2, 50), Pattern(3, 51)};
  if (again) {
    AssignArray(s, store2);
    f = store2;
    Compare(s, f, "re-assigned");
    Step(s, f, true);
  }
  std::vector<FragmentArrayInputStream> copies{s};
  Compare(copies[0], f, "copy");
}
// consuming across several streams of every small layout
MC_SCENARIO(multi_consume, 0, 0) {
  Frags a = ChooseLayout(2, 2, 1), b = ChooseLayout(2, 2, 20), c = ChooseLayout(1, 2, 40);
  FragmentArrayInputStream s1, s2, s3;
  AssignArray(s1, a);
  AssignArray(s2, b);
  AssignArray(s3, c);
  std::string all = Join(a) + Join(b) + Join(c);
  for (int round = 0; round < 3; ++round) {
    int n = mc::choose((int)all.size() + 1, "n");
    bool r = Consume({&s1, &s2, &s3}, n);
    bool done = n == (int)all.size();
    all.erase(0, n);
    MC_CHECK(Content(s1) + Content(s2) + Content(s3) == all, "streams do not hold the unconsumed bytes");
    // every byte consumed: true; a trailing empty fragment may or may not be left over only if bytes remain before it
    MC_CHECK(r == done, "consumed %d, %zu left, returned %d", n, all.size(), r);
    if (done) MC_CHECK(s1.empty() && s2.empty() && s3.empty(), "nothing left but the streams are not empty");
    for (auto* s : {&s1, &s2, &s3}) MC_CHECK(s->num_fragments() == (int)Fragments(*s).size(), "num_fragments");
    mc::evaluated();
  }
  mc::state(mc::mix(mc::hash(all), a.size() * 9 + b.size() * 3 + c.size()));
}
// composed streams: all append trees of up to four nodes, with operations between appends
MC_SCENARIO(compose, 0, 0) {
  const int kNodes = mc::thorough() ? 5 : 4;
  std::vector<std::unique_ptr<ComposableFragmentInputStream>> pool;
  std::vector<Frags> model;
  for (int i = 0; i < kNodes; ++i) {
    Frags f;
    int kind = i < 3 ? mc::choose(3, "kind") : 1;  // leaf with 2 fragments, leaf with 1, empty
    if (kind == 0) f = {Pattern(2, i * 4), Pattern(1, i * 4 + 1)};
    if (kind == 1) f = {Pattern(2, i * 4)};
    if (kind == 0 || i % 2) pool.emplace_back(new Leaf{f});
    else pool.push_back(MakeChained(Join(f)));
    model.push_back(f);
  }
  int steps = 0;
  while (pool.size() > 1) {
    int n = (int)pool.size();
    // the later one is appended to the earlier one, any pair, optionally consuming in between
    int p = mc::choose(n * (n - 1), "pair");
    int a = p / (n - 1), b = p % (n - 1);
    if (b >= a) ++b;
    mc::log("append %d to %d", b, a);
    pool[a]->Append(std::move(pool[b]));
    model[a].insert(model[a].end(), model[b].begin(), model[b].end());
    Compare(*pool[a], model[a], "after append");
    int na = a - (b < a);
    pool.erase(pool.begin() + b);
    model.erase(model.begin() + b);
    if (steps++ == 1 && mc::choose(2, "operate")) Step(*pool[na], model[na], true);
  }
  for (int i = 0; i < (mc::thorough() ? 2 : 1); ++i) Step(*pool[0], model[0], true);
}
// block-chained streams (sizes around block boundaries), alone and appended
MC_SCENARIO(chained_ops, 0, 0) {
  static const int sizes[] = {0, 1, 255, 256, 257, 511, 512, 513, 768, 769};
  int a = mc::choose(10, "size a"), b = mc::choose(11, "size b");
  auto model_of = [](const std::string& s) {
    Frags f;
    for (size_t i = 0; i < s.size(); i += 256) f.push_back(s.substr(i, 256));
    return f;
  };
  std::string sa = Pattern(sizes[a], 1);
  std::unique_ptr<ComposableFragmentInputStream> s = MakeChained(sa);
  Frags f = model_of(sa);
  Compare(*s, f, "closed");
  if (b < 10) {
    std::string sb = Pattern(sizes[b], 9);
    s->Append(MakeChained(sb));
    auto g = model_of(sb);
    f.insert(f.end(), g.begin(), g.end());
    Compare(*s, f, "appended");
  }
  for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i) Step(*s, f, false);
}
MC_SCENARIO(c_strings, 0, 0) {
  int n = mc::choose(20, "len");
  std::string t(n, 'a' + n);
  auto fr = MakeFragment(t.c_str());
  MC_CHECK(fr.first == (void*)t.c_str() && fr.second == n, "MakeFragment of %d characters", n);
  mc::state(n);
}

// Shared pieces of the fragment-stream harnesses.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "common/chained_stream.h"
#include "common/composable_fragment_input_stream.h"
#include "common/fragment_array_input_stream.h"
#include "common/fragment_input_stream.h"
#include "mc.h"

// Fragments shown by a stream, as strings.
inline std::vector<std::string> Fragments(const lightstep::FragmentInputStream& s) {
  std::vector<std::string> r;
  bool done = s.ForEachFragment([&](void* data, int size) {
    MC_CHECK(size >= 0 && size < (1 << 24), "fragment of %d bytes", size);
    r.emplace_back(static_cast<char*>(data), (size_t)size);
    return true;
  });
  MC_CHECK(done, "an iteration that was not interrupted reports that it was");
  return r;
}
inline std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (auto& s : v) r += s;
  return r;
}
inline std::string Content(const lightstep::FragmentInputStream& s) { return Join(Fragments(s)); }

// a byte sequence without repetition over short distances
inline std::string Pattern(size_t n, unsigned seed) {
  std::string s(n, 0);
  uint32_t x = seed * 2654435761u + 12345;
  for (auto& c : s) {
    x = x * 1664525u + 1013904223u;
    c = (char)(x >> 24);
  }
  return s;
}

inline std::unique_ptr<lightstep::ChainedStream> MakeChained(const std::string& s) {
  std::unique_ptr<lightstep::ChainedStream> r{new lightstep::ChainedStream{}};
  size_t i = 0;
  while (i < s.size()) {
    void* p;
    int n;
    if (!r->Next(&p, &n)) mc::fail("Next failed");
    size_t k = std::min((size_t)n, s.size() - i);
    memcpy(p, s.data() + i, k);
    i += k;
    if ((int)k < n) r->BackUp(n - (int)k);
  }
  r->CloseOutput();
  return r;
}
// A composable leaf over an exactly allocated copy of its fragments.
class Leaf final : public lightstep::ComposableFragmentInputStream {
 public:
  explicit Leaf(const std::vector<std::string>& f) : f_(f) {}
  int segment_num_fragments() const noexcept override { return (int)f_.size() - i_; }
  bool SegmentForEachFragment(Callback cb) const noexcept override {
    for (int k = i_; k < (int)f_.size(); ++k) {
      int off = k == i_ ? p_ : 0;
      if (!cb((void*)(f_[k].data() + off), (int)f_[k].size() - off)) return false;
    }
    return true;
  }
  void SegmentClear() noexcept override { i_ = (int)f_.size(); p_ = 0; }
  void SegmentSeek(int i, int p) noexcept override {
    MC_CHECK(i >= 0 && i < segment_num_fragments(), "seek to fragment %d of %d in a segment", i, segment_num_fragments());
    p_ = i == 0 ? p_ + p : p;
    i_ += i;
    MC_CHECK(p_ <= (int)f_[i_].size(), "seek past a fragment's end");
  }

 private:
  std::vector<std::string> f_;
  int i_ = 0, p_ = 0;
};

// mc: variant=asan
// C07: the block-chained output stream: all patterns of Next/BackUp, all sizes, protobuf writers.
#include <google/protobuf/io/coded_stream.h>
#include "streams.h"
using namespace lightstep;
namespace {
void CheckClosed(ChainedStream& s, const std::string& want) {
  MC_CHECK((size_t)s.ByteCount() == want.size(), "byte count %lld, %zu bytes kept", (long long)s.ByteCount(), want.size());
  s.CloseOutput();
  auto f = Fragments(s);
  MC_CHECK(Join(f) == want, "stream yields %zu bytes, %zu written, or they differ", Join(f).size(), want.size());
  MC_CHECK(s.num_fragments() == (int)f.size(), "num_fragments %d, shown %zu", s.num_fragments(), f.size());
  if (want.empty()) MC_CHECK(f.empty() && s.empty(), "nothing was written but %zu fragments are emitted", f.size());
  mc::evaluated();
}
}  // namespace
// every sequence of Next and BackUp with boundary counts
MC_SCENARIO(next_backup, 0, 0) {
  ChainedStream s;
  std::string want;
  int last = 0;
  bool backed = true;
  const int depth = mc::thorough() ? 10 : 8;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(backed ? 2 : 9, "op");
    if (op == 0) break;
    if (op == 1) {
      void* p = nullptr;
      int n = -1;
      MC_CHECK(s.Next(&p, &n), "Next failed");
      MC_CHECK(n > 0 && n <= ChainedStream::BlockSize && p, "Next gave %d bytes", n);
      std::string d = Pattern(n, i + 7);
      memcpy(p, d.data(), n);
      want += d;
      last = n;
      backed = false;
      mc::log("next %d", n);
    } else {
      static const int cs[] = {0, 1, 2, 128, 254, 255, 256};
      int k = std::min(cs[op - 2], last);
      s.BackUp(k);
      want.resize(want.size() - k);
      backed = true;
      mc::log("backup %d", k);
    }
    MC_CHECK((size_t)s.ByteCount() == want.size(), "byte count %lld, expected %zu", (long long)s.ByteCount(), want.size());
    mc::state(mc::mix(want.size(), last));
  }
  CheckClosed(s, want);
}
// every size through protobuf's writer, in pieces of every kind
MC_SCENARIO(all_sizes, 0, 0) {
  int n = mc::choose(mc::thorough() ? 2100 : 1100, "size");
  for (int piece : {1, 3, 100, 255, 256, 257, 5000}) {
    ChainedStream s;
    std::string want = Pattern(n, piece);
    {
      google::protobuf::io::CodedOutputStream o{&s};
      for (int i = 0; i < n; i += piece) o.WriteRaw(want.data() + i, std::min(piece, n - i));
      MC_CHECK(!o.HadError(), "write error");
    }
    CheckClosed(s, want);
  }
  mc::state(n);
}
// mixes of direct-buffer writes and varints around the boundary
MC_SCENARIO(direct_buffers, 0, 0) {
  int start = 236 + mc::choose(40, "start");
  int need = 1 + mc::choose(24, "need");
  ChainedStream s;
  std::string want = Pattern(start, 3);
  {
    google::protobuf::io::CodedOutputStream o{&s};
    o.WriteRaw(want.data(), start);
    for (int r = 0; r < 40; ++r) {
      auto* b = o.GetDirectBufferForNBytesAndAdvance(need);
      std::string d = Pattern(need, r);
      if (b) memcpy(b, d.data(), need);
      else o.WriteRaw(d.data(), need);
      want += d;
    }
  }
  CheckClosed(s, want);
  mc::state(mc::mix(start, need));
}

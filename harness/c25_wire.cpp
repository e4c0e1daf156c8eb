// mc: variant=asan
// C25: integer, key, length and frame encoders against the protobuf / HTTP rules.
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "common/chunked_http_framing.h"
#include "common/direct_coded_output_stream.h"
#include "common/protobuf.h"
#include "common/report_request_framing.h"
#include "common/serialization.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "mc.h"
using namespace lightstep;
namespace gp = google::protobuf;
namespace {
std::string Varint(uint64_t x) {
  std::string r;
  while (x >= 0x80) { r += (char)(x | 0x80); x >>= 7; }
  return r + (char)x;
}
std::vector<uint64_t> Values() {
  std::set<uint64_t> s;
  for (int k = 0; k < 64; ++k)
    for (int d = -2; d <= 2; ++d) { s.insert((1ull << k) + d); s.insert(~(1ull << k) + d); s.insert(0xa5a5a5a5a5a5a5a5ull >> k); s.insert(0x0123456789abcdefull << k >> (k / 2)); }
  return {s.begin(), s.end()};
}
// runs f on a buffer of exactly `size` bytes and returns what it wrote
template <class F>
std::string Exact(size_t size, F f) {
  std::unique_ptr<gp::uint8[]> b{new gp::uint8[size]};
  memset(b.get(), 0xEE, size);
  DirectCodedOutputStream s{b.get()};
  f(s);
  MC_CHECK(s.data() == b.get() + size, "wrote %td bytes, expected %zu", s.data() - b.get(), size);
  return std::string((char*)b.get(), size);
}
// the same through protobuf's stream over blocks of `block` bytes
template <class F>
std::string Coded(int block, F f) {
  std::string out(4096, '\0');
  int n;
  {
    gp::io::ArrayOutputStream a{&out[0], (int)out.size(), block};
    {
      gp::io::CodedOutputStream c{&a};
      f(c);
    }
    n = (int)a.ByteCount();
  }
  out.resize(n);
  return out;
}
template <size_t Field>
void Fields(uint64_t x) {
  std::string key0 = Varint(Field << 3), key1 = Varint(Field << 3 | 1), key2 = Varint(Field << 3 | 2);
  std::string want = key0 + Varint(x);
  MC_CHECK(ComputeVarintSerializationSize<Field>(x) == want.size(), "announced size of varint %llx", (unsigned long long)x);
  MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& s) { WriteVarint<Field>(s, x); }) == want, "WriteVarint %llx", (unsigned long long)x);
  MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& s) { WriteBigVarint<Field>(s, x); }) == want, "WriteBigVarint %llx", (unsigned long long)x);
  for (int block : {1, 7, 4096}) {
    MC_CHECK(Coded(block, [&](gp::io::CodedOutputStream& s) { WriteVarint<Field>(s, x); }) == want, "coded WriteVarint");
    MC_CHECK(Coded(block, [&](gp::io::CodedOutputStream& s) { WriteBigVarint<Field>(s, x); }) == want, "coded WriteBigVarint");
    std::string fw = key1 + std::string((const char*)&x, 8);
    MC_CHECK(Coded(block, [&](gp::io::CodedOutputStream& s) { WriteFixed64<Field>(s, &x); }) == fw, "coded WriteFixed64");
  }
  std::string fw = key1 + std::string((const char*)&x, 8);
  MC_CHECK(Exact(fw.size(), [&](DirectCodedOutputStream& s) { WriteFixed64<Field>(s, &x); }) == fw, "WriteFixed64");
  uint32_t y = (uint32_t)x;
  std::string w32 = key0 + Varint(y);
  MC_CHECK(ComputeVarintSerializationSize<Field>(y) == w32.size(), "announced size of varint32 %x", y);
  MC_CHECK(Exact(w32.size(), [&](DirectCodedOutputStream& s) { WriteVarint<Field>(s, y); }) == w32, "WriteVarint32 %x", y);
  std::string kl = key2 + Varint(y);
  MC_CHECK(ComputeLengthDelimitedHeaderSerializationSize<Field>(y) == kl.size(), "announced header size");
  MC_CHECK(ComputeLengthDelimitedSerializationSize<Field>(y) == kl.size() + y, "announced message size");
  MC_CHECK(Exact(kl.size(), [&](DirectCodedOutputStream& s) { WriteKeyLength<Field>(s, y); }) == kl, "WriteKeyLength %x", y);
  mc::evaluated(9);
}
}  // namespace
MC_SCENARIO(wire_integers, 0, 0) {
  auto v = Values();
  int part = mc::choose(16, "part");
  for (size_t i = part; i < v.size(); i += 16) {
    uint64_t x = v[i];
    std::string want = Varint(x);
    MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& s) { s.WriteVarint64(x); }) == want, "WriteVarint64 %llx", (unsigned long long)x);
    MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& s) { s.WriteBigVarint64(x); }) == want, "WriteBigVarint64 %llx", (unsigned long long)x);
    MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& s) { WriteBigVarint64(s, x); }) == want, "WriteBigVarint64() %llx", (unsigned long long)x);
    std::string w32 = Varint((uint32_t)x);
    MC_CHECK(Exact(w32.size(), [&](DirectCodedOutputStream& s) { s.WriteVarint32((uint32_t)x); }) == w32, "WriteVarint32");
    MC_CHECK(Exact(w32.size(), [&](DirectCodedOutputStream& s) { s.WriteTag((uint32_t)x); }) == w32, "WriteTag");
    Fields<1>(x);
    Fields<2>(x);
    Fields<6>(x);
    Fields<15>(x);
    Fields<16>(x);
    Fields<2047>(x);
    Fields<2048>(x);
    mc::state(x);
  }
}
MC_SCENARIO(wire_strings, 0, 0) {
  int len = mc::choose(mc::thorough() ? 700 : 300, "len");
  std::string s(len, 0);
  for (int i = 0; i < len; ++i) s[i] = (char)(i * 7 + 1);
  std::string want = Varint(5 << 3 | 2) + Varint(len) + s;
  MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& o) { WriteString<5>(o, s); }) == want, "WriteString %d", len);
  MC_CHECK(Exact(len, [&](DirectCodedOutputStream& o) { o.WriteRaw(s.data(), len); }) == s, "WriteRaw %d", len);
  for (int block : {1, 2, 3, 127, 128, 129, 130, 255, 256, 257, 4096})
    MC_CHECK(Coded(block, [&](gp::io::CodedOutputStream& o) { WriteString<5>(o, s); }) == want, "coded WriteString %d, blocks of %d", len, block);
  mc::evaluated(13);
  mc::state(len);
}
MC_SCENARIO(wire_timestamps, 0, 0) {
  auto v = Values();
  int part = mc::choose(16, "part");
  for (size_t i = part; i < v.size(); i += 16)
    for (uint32_t nano : {0u, 1u, 127u, 128u, 16383u, 16384u, 2097151u, 2097152u, 268435455u, 268435456u, 999999999u}) {
      uint64_t sec = v[i];
      std::string body = Varint(1 << 3) + Varint(sec) + Varint(2 << 3) + Varint(nano);
      MC_CHECK(ComputeTimestampSerializationSize(sec, nano) == body.size(), "announced timestamp size");
      std::string want = Varint(7 << 3 | 2) + Varint(body.size()) + body;
      MC_CHECK(Exact(want.size(), [&](DirectCodedOutputStream& o) { WriteTimestamp<7>(o, body.size(), sec, nano); }) == want, "WriteTimestamp");
      for (int block : {1, 5, 4096})
        MC_CHECK(Coded(block, [&](gp::io::CodedOutputStream& o) { WriteTimestamp<7>(o, body.size(), sec, nano); }) == want, "coded WriteTimestamp");
      mc::evaluated(3);
    }
  mc::state(part);
}
MC_SCENARIO(wire_frames, 0, 0) {
  auto v = Values();
  int part = mc::choose(16, "part");
  for (size_t i = part; i < v.size(); i += 16) {
    uint32_t n = (uint32_t)v[i];
    for (size_t extra = 0; extra < 3; ++extra) {
      size_t size = ChunkedHttpMaxHeaderSize + extra;
      std::unique_ptr<char[]> b{new char[size]};
      memset(b.get(), '#', size);
      size_t w = WriteHttpChunkHeader(b.get(), size, n);
      MC_CHECK(w <= size && w >= 3, "chunk header size %zu", w);
      std::string h(b.get() + size - w, w);
      MC_CHECK(h.substr(w - 2) == "\r\n", "chunk header of %u is not ended", n);
      uint64_t x = 0;
      for (char c : h.substr(0, w - 2)) {
        MC_CHECK(isxdigit((unsigned char)c), "chunk header of %u has byte %02x", n, (unsigned char)c);
        x = x * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
      }
      MC_CHECK(x == n, "chunk header of %u reads %llu", n, (unsigned long long)x);
      for (size_t k = 0; k + w < size; ++k) MC_CHECK(b[k] == '#', "byte before the chunk header touched");
      size = ReportRequestSpansMaxHeaderSize + extra;
      b.reset(new char[size]);
      memset(b.get(), '#', size);
      w = WriteReportRequestSpansHeader(b.get(), size, n);
      std::string want = Varint(3 << 3 | 2) + Varint(n);
      MC_CHECK(w == want.size() && std::string(b.get() + size - w, w) == want, "span frame header of %u", n);
      for (size_t k = 0; k + w < size; ++k) MC_CHECK(b[k] == '#', "byte before the span frame touched");
      mc::evaluated(2);
    }
    mc::state(n);
  }
}
MC_SCENARIO(wire_embedded, 0, 0) {
  int len = mc::choose(mc::thorough() ? 20000 : 600, "len");
  collector::KeyValue m;
  m.set_key(std::string(len, 'k'));
  std::string body = m.SerializeAsString();
  for (uint32_t field : {1u, 3u, 15u, 16u, 17u, 2047u, 2048u, 100000u, (1u << 29) - 1}) {
    std::string want = Varint((uint64_t)field << 3 | 2) + Varint(body.size()) + body;
    MC_CHECK(ComputeEmbeddedMessageSerializationSize(field, m) == want.size(), "embedded size of field %u length %d", field, len);
    MC_CHECK(ComputeEmbeddedMessageSerializationSize(field, body.size()) == want.size(), "embedded size (given) of field %u length %d", field, len);
    for (int block : {1, 64, 256, 1 << 20}) {
      std::string out(want.size() + 64, '#');
      int n;
      gp::io::ArrayOutputStream a{&out[0], (int)out.size(), block};
      {
        gp::io::CodedOutputStream c{&a};
        if (block & 64) WriteEmbeddedMessage(c, field, m);
        else { m.ByteSizeLong(); WriteEmbeddedMessage(c, field, body.size(), m); }
      }
      n = (int)a.ByteCount();
      out.resize(n);
      MC_CHECK(out == want, "embedded message of field %u length %d differs", field, len);
      mc::evaluated();
    }
  }
  mc::state(len);
}

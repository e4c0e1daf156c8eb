// mc: variant=asan
// C25: hexadecimal codecs against a reference parser, every byte at every position.
#include <cctype>
#include <cstring>
#include <memory>
#include <string>
#include "common/hex_conversion.h"
#include "mc.h"
using namespace lightstep;
namespace {
using u128 = unsigned __int128;
// 0 ok, 1 error
bool Reference(const std::string& s0, int max_digits, u128& out) {
  auto blank = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  size_t b = 0, e = s0.size();
  while (b < e && blank(s0[b])) ++b;
  while (e > b && blank(s0[e - 1])) --e;
  if (b == e) return false;
  while (b < e && s0[b] == '0') ++b;
  if (e - b > (size_t)max_digits) return false;
  out = 0;
  for (; b < e; ++b) {
    char c = s0[b];
    int v;
    if (c >= '0' && c <= '9') v = c - '0';
    else if (c >= 'a' && c <= 'f') v = c - 'a' + 10;
    else if (c >= 'A' && c <= 'F') v = c - 'A' + 10;
    else return false;
    out = (out << 4) | v;
  }
  return true;
}
std::string Show(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c > 32 && c < 127) r += c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r;
}
uint64_t n_ok, n_bad;
// the text sits in an exactly sized heap block
void Check(const std::string& s) {
  std::unique_ptr<char[]> p{new char[s.size()]};
  memcpy(p.get(), s.data(), s.size());
  opentracing::string_view v{p.get(), s.size()};
  u128 want = 0;
  bool ok = Reference(s, 16, want);
  auto r = HexToUint64(v);
  MC_CHECK(static_cast<bool>(r) == ok, "HexToUint64(\"%s\") %s", Show(s).c_str(), r ? "accepted" : "refused");
  if (ok) MC_CHECK(*r == (uint64_t)want, "HexToUint64(\"%s\") = %llx", Show(s).c_str(), (unsigned long long)*r);
  want = 0;
  ok = Reference(s, 32, want);
  uint64_t hi = 0x1111, lo = 0x2222;
  auto r2 = HexToUint128(v, hi, lo);
  MC_CHECK(static_cast<bool>(r2) == ok, "HexToUint128(\"%s\") %s", Show(s).c_str(), r2 ? "accepted" : "refused");
  if (ok)
    MC_CHECK(hi == (uint64_t)(want >> 64) && lo == (uint64_t)want, "HexToUint128(\"%s\") = %llx,%llx", Show(s).c_str(),
             (unsigned long long)hi, (unsigned long long)lo);
  ok ? ++n_ok : ++n_bad;
  mc::evaluated(2);
}
bool AllHex(const std::string& s) {
  for (unsigned char c : s)
    if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return false;
  return true;
}
void CheckNormalized(const std::string& s) {
  std::unique_ptr<char[]> p{new char[s.size()]};
  memcpy(p.get(), s.data(), s.size());
  opentracing::string_view v{p.get(), s.size()};
  bool ok = AllHex(s);
  u128 want = 0;
  if (ok) Reference(s, 32, want);
  if (s.size() == 2) {
    auto r = NormalizedHexToUint8(v);
    MC_CHECK(static_cast<bool>(r) == ok, "NormalizedHexToUint8(\"%s\")", Show(s).c_str());
    if (ok) MC_CHECK(*r == (uint8_t)want, "NormalizedHexToUint8(\"%s\")", Show(s).c_str());
  } else if (s.size() == 16) {
    auto r = NormalizedHexToUint64(v);
    MC_CHECK(static_cast<bool>(r) == ok, "NormalizedHexToUint64(\"%s\")", Show(s).c_str());
    if (ok) MC_CHECK(*r == (uint64_t)want, "NormalizedHexToUint64(\"%s\")", Show(s).c_str());
  } else if (s.size() == 32) {
    uint64_t hi = 1, lo = 2;
    auto r = NormalizedHexToUint128(v, hi, lo);
    MC_CHECK(static_cast<bool>(r) == ok, "NormalizedHexToUint128(\"%s\")", Show(s).c_str());
    if (ok) MC_CHECK(hi == (uint64_t)(want >> 64) && lo == (uint64_t)want, "NormalizedHexToUint128(\"%s\")", Show(s).c_str());
  }
  mc::evaluated();
}
const unsigned char kSig[] = {'0', '1', '9', 'a', 'f', 'A', 'F', 'g', 'G', ' ', '\t', '\n', '\v', '\r', '/', ':', '@', '`', '-', '+', 'x', 0, 0x80, 0xff};
uint64_t Ids(int k) {
  static const uint64_t v[] = {0, 1, 9, 10, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull,
                               0x100000000ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
                               0xffffffffffffffffull, 0x00ff00ff00ff00ffull, 0xff00ff00ff00ff00ull, 0x1000000000000000ull, 0x00ffffffffffffffull};
  const int nv = sizeof v / sizeof *v;
  if (k < nv) return v[k];
  k -= nv;
  if (k < 64) return 1ull << k;
  k -= 64;
  return ~(1ull << k);
}
const int kIds = 26 + 64 + 64;
}  // namespace

// every string of up to two arbitrary bytes, and (thorough) three
MC_SCENARIO(hex_all_bytes, 0, 0) {
  int a = mc::choose(257, "b0");
  if (a == 256) { Check(""); return; }
  Check(std::string(1, (char)a));
  for (int b = 0; b < 256; ++b) {
    std::string s{(char)a, (char)b};
    Check(s);
    CheckNormalized(s);
    if (mc::thorough())
      for (int c = 0; c < 256; ++c) Check(s + (char)c);
    else
      for (unsigned char c : kSig) Check(s + (char)c);
  }
  mc::state(mc::mix(a, n_ok));
}
// every string over the significant bytes up to a length
MC_SCENARIO(hex_significant, 0, 0) {
  const int k = sizeof kSig;
  int a = mc::choose(k, "c0"), b = mc::choose(k, "c1");
  std::string s{(char)kSig[a], (char)kSig[b]};
  for (unsigned char c : kSig)
    for (unsigned char d : kSig) {
      std::string t = s + (char)c + (char)d;
      Check(t);
      if (mc::thorough())
        for (unsigned char e : kSig) Check(t + (char)e);
    }
  mc::state(mc::mix(a, b));
}
// leading blanks, zeros, digits (uniform or varied), one foreign byte at every position, trailing blanks
MC_SCENARIO(hex_lengths, 0, 0) {
  int zeros = mc::choose(36, "zeros");
  int digits = mc::choose(36, "digits");
  const char* pats[] = {"ffffffffffffffffffffffffffffffffffff", "123456789abcdefABCDEF0123456789abcdef", "800000000000000000000000000000000000"};
  for (int pat = 0; pat < 3; ++pat)
    for (int lead = 0; lead < 3; ++lead)
      for (int trail = 0; trail < 3; ++trail) {
        std::string core = std::string(zeros, '0') + std::string(pats[pat], digits);
        std::string s = std::string(lead, ' ') + core + std::string(trail, '\t');
        Check(s);
        if (lead + trail == 0 || (lead == 1 && trail == 1))
          for (size_t i = 0; i < s.size(); ++i)
            for (unsigned char c : {' ', 'g', '\x80', '\xff', '\0', 'F'}) {
              std::string t = s;
              t[i] = c;
              Check(t);
            }
        if (lead + trail == 0 && (core.size() == 2 || core.size() == 16 || core.size() == 32)) {
          CheckNormalized(core);
          for (size_t i = 0; i < core.size(); ++i)
            for (int c = 0; c < 256; ++c) {
              std::string t = core;
              t[i] = (char)c;
              CheckNormalized(t);
            }
        }
      }
  mc::state(mc::mix(zeros, digits));
}
// id -> text -> id
MC_SCENARIO(hex_roundtrip, 0, 0) {
  int a = mc::choose(kIds, "hi");
  uint64_t hi = Ids(a);
  char want[64];
  for (int b = 0; b < kIds; ++b) {
    uint64_t lo = Ids(b);
    HexSerializer ser;
    snprintf(want, sizeof want, "%016llx", (unsigned long long)lo);
    auto v = ser.Uint64ToHex(lo);
    MC_CHECK(std::string(v.data(), v.size()) == want, "Uint64ToHex(%llx) = %.*s", (unsigned long long)lo, (int)v.size(), v.data());
    auto r = HexToUint64(v);
    MC_CHECK(r && *r == lo, "round trip of %llx", (unsigned long long)lo);
    auto rn = NormalizedHexToUint64(v);
    MC_CHECK(rn && *rn == lo, "normalized round trip of %llx", (unsigned long long)lo);
    if (hi) snprintf(want, sizeof want, "%016llx%016llx", (unsigned long long)hi, (unsigned long long)lo);
    v = ser.Uint128ToHex(hi, lo);
    MC_CHECK(std::string(v.data(), v.size()) == want, "Uint128ToHex(%llx,%llx)", (unsigned long long)hi, (unsigned long long)lo);
    uint64_t h2 = 5, l2 = 6;
    auto r2 = HexToUint128(v, h2, l2);
    MC_CHECK(r2 && h2 == hi && l2 == lo, "128-bit round trip of %llx,%llx", (unsigned long long)hi, (unsigned long long)lo);
    if (v.size() == 32) {
      auto r3 = NormalizedHexToUint128(v, h2, l2);
      MC_CHECK(r3 && h2 == hi && l2 == lo, "normalized 128-bit round trip");
    }
    std::unique_ptr<char[]> out{new char[8]};
    v = Uint32ToHex((uint32_t)lo, out.get());
    snprintf(want, sizeof want, "%08x", (uint32_t)lo);
    MC_CHECK(v.size() == 8 && v.data() == out.get() && !memcmp(v.data(), want, 8), "Uint32ToHex(%x)", (uint32_t)lo);
    out.reset(new char[16]);
    v = Uint64ToHex(lo, out.get());
    snprintf(want, sizeof want, "%016llx", (unsigned long long)lo);
    MC_CHECK(v.size() == 16 && v.data() == out.get() && !memcmp(v.data(), want, 16), "Uint64ToHex(%s)", want);
    mc::evaluated(4);
  }
  if (a == 0)
    for (int i = 0; i < 256; ++i) {
      std::unique_ptr<char[]> out{new char[2]};
      auto v = Uint8ToHex((uint8_t)i, out.get());
      snprintf(want, sizeof want, "%02x", i);
      MC_CHECK(v.size() == 2 && v.data() == out.get() && !memcmp(v.data(), want, 2), "Uint8ToHex(%d)", i);
      auto r = NormalizedHexToUint8(v);
      MC_CHECK(r && *r == i, "8-bit round trip of %d", i);
    }
  mc::state(a);
}

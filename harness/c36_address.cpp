// mc: variant=asan
// C36: addresses through every conversion, against an independent reader of the text forms.
#include <arpa/inet.h>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "mc.h"
#include "network/ip_address.h"
using namespace lightstep;
namespace {
struct Parsed {
  int family = 0;  // 0: no address
  unsigned char b[16] = {};
};
bool V4(const std::string& s, unsigned char* out) {
  size_t i = 0;
  for (int k = 0; k < 4; ++k) {
    if (k) {
      if (i >= s.size() || s[i] != '.') return false;
      ++i;
    }
    size_t st = i;
    int v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i]) && i - st < 4) v = v * 10 + (s[i++] - '0');
    size_t n = i - st;
    if (n == 0 || n > 3 || v > 255 || (n > 1 && s[st] == '0')) return false;
    out[k] = (unsigned char)v;
  }
  return i == s.size();
}
// groups of a colon-separated half; the last may be a dotted quad
bool Groups(const std::string& s, bool quad_allowed, std::vector<unsigned char>& out) {
  if (s.empty()) return true;
  size_t i = 0;
  for (;;) {
    size_t j = s.find(':', i);
    std::string g = s.substr(i, j == std::string::npos ? std::string::npos : j - i);
    unsigned char q[4];
    if (j == std::string::npos && quad_allowed && V4(g, q)) {
      out.insert(out.end(), q, q + 4);
      return true;
    }
    if (g.empty() || g.size() > 4) return false;
    unsigned v = 0;
    for (char c : g) {
      if (!isxdigit((unsigned char)c)) return false;
      v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : tolower(c) - 'a' + 10);
    }
    out.push_back((unsigned char)(v >> 8));
    out.push_back((unsigned char)v);
    if (j == std::string::npos) return true;
    i = j + 1;
  }
}
Parsed Read(const std::string& s) {
  Parsed p;
  if (V4(s, p.b)) {
    p.family = AF_INET;
    return p;
  }
  memset(p.b, 0, 16);
  size_t d = s.find("::");
  std::vector<unsigned char> a, b;
  if (d == std::string::npos) {
    if (!Groups(s, true, a) || a.size() != 16) return p;
  } else {
    if (s.find("::", d + 1) != std::string::npos) return p;
    std::string l = s.substr(0, d), r = s.substr(d + 2);
    if (!Groups(l, false, a) || !Groups(r, true, b) || a.size() + b.size() > 14) return p;
    a.resize(16 - b.size(), 0);
    a.insert(a.end(), b.begin(), b.end());
  }
  memcpy(p.b, a.data(), 16);
  p.family = AF_INET6;
  return p;
}
void CheckIs(const IpAddress& a, int family, const unsigned char* b, unsigned port, const char* how) {
  MC_CHECK(a.family() == family, "%s: family %d instead of %d", how, a.family(), family);
  MC_CHECK(a.addr().sa_family == family, "%s: system structure of family %d", how, (int)a.addr().sa_family);
  if (family == AF_INET) {
    const sockaddr_in& s = (const sockaddr_in&)a.addr();
    MC_CHECK(!memcmp(&s.sin_addr, b, 4), "%s: address bytes differ", how);
    MC_CHECK(ntohs(s.sin_port) == port, "%s: port %d instead of %d", how, ntohs(s.sin_port), port);
    MC_CHECK(!memcmp(&a.ipv4_address(), &s, sizeof s), "%s: ipv4_address differs", how);
    for (unsigned char z : s.sin_zero) MC_CHECK(z == 0, "%s: padding not zero", how);
  } else {
    const sockaddr_in6& s = (const sockaddr_in6&)a.addr();
    MC_CHECK(!memcmp(&s.sin6_addr, b, 16), "%s: address bytes differ", how);
    MC_CHECK(ntohs(s.sin6_port) == port, "%s: port %d instead of %d", how, ntohs(s.sin6_port), port);
    MC_CHECK(s.sin6_flowinfo == 0 && s.sin6_scope_id == 0, "%s: flow or scope invented", how);
    MC_CHECK(!memcmp(&a.ipv6_address(), &s, sizeof s), "%s: ipv6_address differs", how);
  }
}
IpAddress Dirty(const char* s) {  // over memory that was something else before
  alignas(IpAddress) char mem[sizeof(IpAddress)];
  memset(mem, 0xa5, sizeof mem);
  auto* p = new (mem) IpAddress{s};
  IpAddress r = *p;
  return r;
}
std::string Print(const IpAddress& a) {
  std::ostringstream o;
  o << a;
  std::string s = ToString(a);
  MC_CHECK(o.str() == s, "two printed forms");
  return s;
}
// all the ways to the address with these bytes
void Ways(int family, const unsigned char* b, unsigned port) {
  std::vector<IpAddress> same;
  unsigned char other[16];
  memcpy(other, b, 16);
  if (family == AF_INET) {
    in_addr ia;
    memcpy(&ia, b, 4);
    IpAddress a{ia};
    CheckIs(a, family, b, 0, "from in_addr");
    a.set_port((uint16_t)port);
    CheckIs(a, family, b, port, "after set_port");
    same.push_back(a);
    sockaddr_in sa{};
    sa.sin_family = AF_INET;
    sa.sin_addr = ia;
    sa.sin_port = htons((uint16_t)port);
    auto* exact = new sockaddr_in(sa);  // nothing beyond the structure may be read
    same.emplace_back((const sockaddr&)*exact);
    delete exact;
  } else {
    in6_addr ia;
    memcpy(&ia, b, 16);
    IpAddress a{ia};
    CheckIs(a, family, b, 0, "from in6_addr");
    a.set_port((uint16_t)port);
    CheckIs(a, family, b, port, "after set_port");
    same.push_back(a);
    sockaddr_in6 sa{};
    sa.sin6_family = AF_INET6;
    sa.sin6_addr = ia;
    sa.sin6_port = htons((uint16_t)port);
    auto* exact = new sockaddr_in6(sa);
    same.emplace_back((const sockaddr&)*exact);
    delete exact;
  }
  std::string text = Print(same[0]);
  Parsed back = Read(text);
  MC_CHECK(back.family == family && !memcmp(back.b, b, family == AF_INET ? 4 : 16), "printed as \"%s\", which is another address", text.c_str());
  same.emplace_back(text.c_str(), (uint16_t)port);
  {
    IpAddress d = Dirty(text.c_str());
    CheckIs(d, family, b, 0, "from text");
    d.set_port((uint16_t)port);
    same.push_back(d);
  }
  {
    IpAddress c;
    MC_CHECK(c.family() == AF_INET, "default address of family %d", c.family());
    c = same[0];
    same.push_back(c);
    same.emplace_back(same[0].addr());
  }
  for (auto& x : same) {
    CheckIs(x, family, b, port, "converted");
    for (auto& y : same) MC_CHECK(x == y && !(x != y), "equal addresses (%s port %u) compare different", text.c_str(), port);
    MC_CHECK(Print(x) == text, "equal addresses print differently");
  }
  // any one difference makes it another address
  int n = family == AF_INET ? 4 : 16;
  for (int i = 0; i < n; ++i) {
    other[i] ^= 1;
    IpAddress o = family == AF_INET ? IpAddress{*(const in_addr*)other} : IpAddress{*(const in6_addr*)other};
    o.set_port((uint16_t)port);
    MC_CHECK(!(o == same[0]) && o != same[0], "addresses differing in byte %d compare equal", i);
    other[i] ^= 1;
  }
  for (unsigned q : {port ^ 1, port ^ 0x100}) {
    IpAddress o = same[0];
    o.set_port((uint16_t)q);
    MC_CHECK(!(o == same[0]) && o != same[0], "addresses differing in the port compare equal");
    CheckIs(o, family, b, q, "after changing the port");
    o.set_port((uint16_t)port);
    MC_CHECK(o == same[0], "changing the port back gives another address");
  }
  mc::evaluated(same.size() * same.size() + n + 2);
}
const unsigned kPorts[] = {0, 1, 80, 255, 256, 8080, 0x8000, 65535};
}  // namespace
MC_SCENARIO(v4, 0, 0) {
  static const unsigned char v[] = {0, 1, 9, 10, 99, 100, 127, 200, 255};
  unsigned char b[16] = {};
  for (int i = 0; i < 4; ++i) b[i] = v[mc::choose(9, "octet")];
  unsigned port = kPorts[mc::choose(8, "port")];
  Ways(AF_INET, b, port);
  mc::state(mc::hash(b, 4, port));
}
MC_SCENARIO(v6, 0, 0) {
  static const unsigned v[] = {0, 1, 0xffff, 0x0db8};
  unsigned char b[16];
  int n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < 8; ++i) {
    unsigned g = i == 0 || i == 3 || i == 5 ? v[mc::choose(n, "group")] : v[mc::choose(2, "group")];
    b[2 * i] = (unsigned char)(g >> 8);
    b[2 * i + 1] = (unsigned char)g;
  }
  Ways(AF_INET6, b, kPorts[mc::choose(8, "port")]);
  mc::state(mc::hash(b, 16));
}
MC_SCENARIO(v6_mapped, 0, 0) {
  unsigned char b[16] = {};
  static const unsigned char v[] = {0, 1, 255, 192};
  for (int i = 12; i < 16; ++i) b[i] = v[mc::choose(4, "octet")];
  if (mc::choose(2, "mapped")) b[10] = b[11] = 255;
  Ways(AF_INET6, b, 443);
}
MC_SCENARIO(families_differ, 0, 0) {
  IpAddress a{"0.0.0.0"}, b{"::"};
  MC_CHECK(!(a == b) && a != b, "addresses of two families compare equal");
  IpAddress d;
  MC_CHECK(d == a, "the default address is not 0.0.0.0 port 0");
  mc::evaluated(2);
}
namespace {
void Text(const std::string& s) {
  Parsed p = Read(s);
  bool threw = false;
  char* exact = new char[s.size() + 1];
  memcpy(exact, s.c_str(), s.size() + 1);
  try {
    IpAddress a{exact};
    MC_CHECK(p.family != 0, "\"%s\" is accepted as an address", s.c_str());
    CheckIs(a, p.family, p.b, 0, s.c_str());
    IpAddress w{exact, 8080};
    CheckIs(w, p.family, p.b, 8080, s.c_str());
  } catch (const std::runtime_error&) {
    threw = true;
  }
  delete[] exact;
  MC_CHECK(threw == (p.family == 0), "\"%s\" is refused as an address", s.c_str());
  if (threw) mc::outcome("refused"); else mc::outcome("accepted");
  mc::state(mc::hash(s));
  mc::evaluated();
}
}  // namespace
// every text up to a length over the significant characters
MC_SCENARIO(short_text, 0, 0) {
  static const char al[] = "01.:fg 9";
  int n = mc::choose(mc::thorough() ? 9 : 8, "length");
  std::string s;
  for (int i = 0; i < n; ++i) s += al[mc::choose(n >= 7 ? 5 : 8, "char")];
  Text(s);
}
// single deletions, replacements and duplications in valid texts
MC_SCENARIO(corrupted_text, 0, 0) {
  static const char* base[] = {"192.168.10.254", "255.255.255.255", "0.0.0.0", "2001:db8:0:1:22:333:4444:ffff", "::ffff:10.0.0.1", "fe80::1", "1:2:3:4:5:6:7::", "::", "a:b:c:d:e:f:1.2.3.4"};
  std::string s = base[mc::choose(9, "base")];
  int pos = mc::choose((int)s.size() + 1, "position");
  static const char rep[] = "0125.:fG x%/";
  int k = mc::choose(2 * 12 + 2, "edit");
  if (k < 12) s.insert(pos, 1, rep[k]);
  else if (k < 24) { if (pos < (int)s.size()) s[pos] = rep[k - 12]; }
  else if (k == 24) s.erase(pos, 1);
  else s = s.substr(0, pos);
  Text(s);
}

// mc: variant=asan
// C16: separating configured endpoints into hosts and indexed endpoints.
#include <strings.h>
#include <string>
#include <utility>
#include <vector>
#include "mc.h"
#include "recorder/stream_recorder/utility.h"
using namespace lightstep;
namespace {
void Body(int n, const std::vector<std::string>& names, const std::vector<uint16_t>& ports) {
  std::vector<std::pair<std::string, uint16_t>> in;
  for (int i = 0; i < n; ++i) {
    int h = mc::choose((int)names.size(), "host"), p = mc::choose((int)ports.size(), "port");
    in.emplace_back(names[h], ports[p]);
  }
  auto copy = in;
  auto out = SeparateEndpoints(in);
  auto& hosts = out.first;
  auto& eps = out.second;
  MC_CHECK(in == copy, "the configuration is changed");
  MC_CHECK(eps.size() == in.size(), "%zu endpoints of %zu", eps.size(), in.size());
  for (size_t i = 0; i < in.size(); ++i) {
    int k = eps[i].first;
    MC_CHECK(k >= 0 && k < (int)hosts.size(), "endpoint %zu refers to host %d of %zu", i, k, hosts.size());
    MC_CHECK(!strcasecmp(hosts[k], in[i].first.c_str()), "endpoint %zu (%s) refers to host %s", i, in[i].first.c_str(), hosts[k]);
    MC_CHECK(eps[i].second == in[i].second, "endpoint %zu has port %d instead of %d", i, eps[i].second, in[i].second);
  }
  for (size_t a = 0; a < hosts.size(); ++a) {
    bool used = false;
    for (auto& e : in) used = used || e.first.c_str() == hosts[a] || e.first == hosts[a];
    MC_CHECK(used, "host %s is not configured", hosts[a]);
    for (size_t b = 0; b < a; ++b) MC_CHECK(strcasecmp(hosts[a], hosts[b]), "host %s appears twice", hosts[a]);
  }
  uint64_t h = n;
  for (auto& e : eps) h = mc::mix(h, e.first * 70000 + e.second);
  mc::state(h);
  mc::evaluated();
}
}  // namespace
MC_SCENARIO(few_names, 0, 0) {
  int n = mc::choose(mc::thorough() ? 6 : 5, "n");
  Body(n, {"a", "A", "b", "ab", "satellite.example.com"}, {80, 65535});
}
MC_SCENARIO(more_names, 0, 0) {
  int n = mc::choose(mc::thorough() ? 5 : 4, "n");
  Body(n, {"Foo.com", "foo.COM", "foo.com.", "fo", "FOO.COM", "zeta", "ZETA", "", "_a", "Z"}, {1, 443});
}
MC_SCENARIO(many, 0, 0) {
  int n = mc::choose(mc::thorough() ? 10 : 8, "n");
  Body(n, {"h1", "H1", "h2"}, {5});
}

// mc: variant=asan skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp
// C16: name resolution and endpoint choice against every order and outcome of
// the resolver's answers and of the timers, over virtual time.
#include <cstring>
#include <map>
#include "fake_event.h"
#include "entropy.h"
#include "common/random.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
using namespace lightstep;
namespace {
const int64_t kMin = 300000000, kMax = 360000000, kRetry = 5000000;
struct Answer {
  std::vector<int> addresses;
  bool error = false;
};
// what is known of one host and family, from the answers alone
struct Question {
  std::string host;
  int family = 0;
  DnsResolutionCallback* callback = nullptr;  // outstanding
  bool asked = false;
  std::vector<int> known;
  int64_t due_from = -1, due_to = -1;  // when it must be asked again
};
struct Resolution final : DnsResolution {
  const Answer& a;
  int family;
  Resolution(const Answer& x, int f) : a(x), family(f) {}
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override;
};
IpAddress Make(int family, int id) {
  if (family == AF_INET) {
    in_addr a;
    a.s_addr = htonl(0x0a000000 + id);
    return IpAddress{a};
  }
  in6_addr a = {};
  a.s6_addr[0] = 0xfd;
  a.s6_addr[15] = (unsigned char)id;
  return IpAddress{a};
}
bool Resolution::ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const {
  for (int id : a.addresses)
    if (!f(Make(family, id))) return false;
  return true;
}
struct World;
World* world;
struct World {
  fake_event::Scope events;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions topt;
  StreamRecorderOptions ropt;
  std::unique_ptr<EventBase> base;
  std::unique_ptr<SatelliteEndpointManager> manager;
  std::map<std::pair<std::string, int>, Question> q;
  std::vector<std::pair<std::string, uint16_t>> endpoints;
  int ready = 0;
  bool may_be_ready = false, destroying = false;
  long position = -1;                            // configured endpoint chosen last
  std::map<std::string, std::pair<std::vector<int>, long>> turn;  // host: addresses at the last choice, index chosen
  explicit World(std::vector<std::pair<std::string, uint16_t>> e) : endpoints(e) {
    world = this;
    if (!entropy::shared_()) entropy::fresh();
    std::seed_seq seed{5, 6, 7, 8};
    GetRandomNumberGenerator().seed(seed);
    logger.set_level(mc::logging() ? LogLevel::debug : LogLevel::off);
    topt.satellite_endpoints = e;
    ropt.dns_failure_retry_period = std::chrono::microseconds{kRetry};
    ropt.min_dns_resolution_refresh_period = std::chrono::microseconds{kMin};
    ropt.max_dns_resolution_refresh_period = std::chrono::microseconds{kMax};
    base.reset(new EventBase{});
    manager.reset(new SatelliteEndpointManager{logger, *base, topt, ropt, [this] {
      ++ready;
      mc::log("ready");
      MC_CHECK(ready == 1, "reported ready %d times", ready);
      MC_CHECK(may_be_ready, "reported ready before an address is known");
      Request();
    }});
    MC_CHECK(q.empty(), "a question is asked before the start");
    manager->Start();
    for (auto& x : endpoints)
      for (int f : {AF_INET, AF_INET6}) MC_CHECK(q[std::make_pair(x.first, f)].asked, "%s is never resolved for family %d", x.first.c_str(), f);
    Check();
  }
  int64_t now() { return events.w.now; }
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) {
    MC_CHECK(!destroying, "a question is asked while everything is destroyed");
    MC_CHECK(family == AF_INET || family == AF_INET6, "family %d", family);
    bool configured = false;
    for (auto& e : endpoints) configured |= e.first == name;
    MC_CHECK(configured, "\"%s\" is resolved", name);
    Question& x = q[std::make_pair(std::string(name), family)];
    x.host = name;
    x.family = family;
    MC_CHECK(!x.callback, "%s is asked for while the last question is not answered", name);
    if (x.asked) MC_CHECK(x.due_from <= now() && now() <= x.due_to, "%s is asked for at %ld us, due from %ld to %ld", name, (long)now(), (long)x.due_from, (long)x.due_to);
    x.asked = true;
    x.due_from = x.due_to = -1;
    x.callback = &cb;
    mc::log("asked for %s (%s) at %ld us", name, family == AF_INET ? "IPv4" : "IPv6", (long)now());
    int c = mc::deviate(5, "at once");
    if (c) Reply(x, c - 1);
  }
  // kinds of answers: one address, two others, none, an error
  void Reply(Question& x, int kind) {
    int b = (int)(x.host[0] - 'a') * 8;
    static const std::vector<std::vector<int>> sets = {{1}, {2, 3}, {}, {}};
    Answer a;
    for (int i : sets[kind]) a.addresses.push_back(b + i);
    a.error = kind == 3;
    auto cb = x.callback;
    x.callback = nullptr;
    mc::log("answer for %s (%s): %s", x.host.c_str(), x.family == AF_INET ? "IPv4" : "IPv6", kind == 0 ? "one" : kind == 1 ? "two" : kind == 2 ? "none" : "error");
    if (kind < 2) {
      x.known = a.addresses;
      may_be_ready = true;
      x.due_from = now() + kMin;
      x.due_to = now() + kMax;
    } else x.due_from = x.due_to = now() + kRetry;
    if (a.error) cb->OnDnsResolution(DnsResolution{}, "no such host");
    else cb->OnDnsResolution(Resolution{a, x.family}, {});
    MC_CHECK(ready == may_be_ready, "an address is known and %d times reported ready", ready);
  }
  const std::vector<int>& Usable(const std::string& host, int* family = nullptr) {
    auto& four = q[std::make_pair(host, (int)AF_INET)];
    auto& six = q[std::make_pair(host, (int)AF_INET6)];
    if (family) *family = four.known.empty() ? AF_INET6 : AF_INET;
    return four.known.empty() ? six.known : four.known;
  }
  static int Port(const IpAddress& a) { return ntohs(a.family() == AF_INET ? a.ipv4_address().sin_port : a.ipv6_address().sin6_port); }
  void Request() {
    auto r = manager->RequestEndpoint();
    long n = (long)endpoints.size();
    long want = position;
    if (want < 0) {
      // the cycle may begin anywhere
      for (long i = 0; i < n; ++i)
        if (endpoints[i].first == r.second && endpoints[i].second == Port(r.first)) want = i + n - 1;
      MC_CHECK(want >= 0, "%s:%d is not configured", r.second, Port(r.first));
    }
    do want = (want + 1) % n;
    while (Usable(endpoints[want].first).empty());
    position = want;
    int family;
    auto& set = Usable(endpoints[want].first, &family);
    std::string host = r.second;
    mc::log("endpoint %s", host.c_str());
    MC_CHECK(host == endpoints[want].first, "endpoint of host %s chosen, the turn of %s", host.c_str(), endpoints[want].first.c_str());
    long which = -1;
    for (size_t i = 0; i < set.size(); ++i) {
      IpAddress a = Make(family, set[i]);
      a.set_port(endpoints[want].second);
      if (r.first.family() != family) continue;
      bool same = family == AF_INET ? r.first.ipv4_address().sin_addr.s_addr == a.ipv4_address().sin_addr.s_addr && r.first.ipv4_address().sin_port == a.ipv4_address().sin_port
                                    : !memcmp(&r.first.ipv6_address().sin6_addr, &a.ipv6_address().sin6_addr, 16) && r.first.ipv6_address().sin6_port == htons(endpoints[want].second);
      if (same) which = (long)i;
    }
    MC_CHECK(which >= 0, "%s:%d resolved to an address or port that is not its own", host.c_str(), endpoints[want].second);
    auto& t = turn[host];
    if (t.first == set) MC_CHECK(which == (t.second + 1) % (long)set.size(), "address %ld of %s chosen after address %ld", which, host.c_str(), t.second);
    t = std::make_pair(set, which);
  }
  void Timer() {
    auto e = fake_event::next_timer(events.w.bases[0]);
    for (auto& x : q)
      if (x.second.due_to >= 0) MC_CHECK(e && e->deadline <= x.second.due_to, "%s is not asked for again", x.first.first.c_str());
    events.w.now = std::max(now(), e->deadline);
    fake_event::fire(e, EV_TIMEOUT);
  }
  void Check() {
    uint64_t h = position;
    bool timers = false;
    for (auto& x : q) {
      MC_CHECK(!x.second.asked || x.second.callback || x.second.due_to >= 0, "harness");
      timers |= x.second.due_to >= 0;
      h = mc::mix(h, (x.second.callback != nullptr) + 2 * x.second.known.size() + 8 * (x.second.due_to >= 0 ? (x.second.due_to - now()) / 1000000 : 0));
    }
    if (timers) MC_CHECK(fake_event::next_timer(events.w.bases[0]), "nothing will ever be asked for again");
    mc::state(h);
    mc::evaluated();
  }
  // outstanding questions are answered with an error, as the resolving library does
  void Destroy() {
    destroying = true;
    manager.reset();
    for (auto& x : q) MC_CHECK(!x.second.callback, "a resolver was not destroyed");
    for (auto e : events.w.events) MC_CHECK(e->once, "an event is never freed");
    base.reset();
    MC_CHECK(events.w.bases.empty() && events.w.events.empty(), "left behind: %s", fake_event::summary().c_str());
  }
};
// one name and family alone
struct Single {
  fake_event::Scope events;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  StreamRecorderOptions ropt;
  DnsResolutionCallback* asked = nullptr;
  bool sync = true;
  int ready = 0, family;
  std::vector<int> known;
  int64_t from = -1, to = -1;
  explicit Single(int f) : family(f) {}
} *single;
struct FakeResolver final : DnsResolver {
  DnsResolutionCallback* last = nullptr;
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    if (single) {
      MC_CHECK(!strcmp(name, "n") && family == single->family, "%s is asked for", name);
      MC_CHECK(!single->asked, "a question is asked before the last one is answered");
      int64_t now = single->events.w.now;
      if (single->to >= 0) MC_CHECK(single->from <= now && now <= single->to, "asked at %ld us, due from %ld to %ld", (long)now, (long)single->from, (long)single->to);
      single->asked = &cb;
      return;
    }
    MC_CHECK(!last || last == &cb, "a resolver is shared");
    last = &cb;
    world->Resolve(name, family, cb);
  }
  ~FakeResolver() noexcept override {
    if (single) return;
    for (auto& x : world->q)
      if (x.second.callback && x.second.callback == last) {
        auto cb = x.second.callback;
        x.second.callback = nullptr;
        cb->OnDnsResolution(DnsResolution{}, "the resolver is being destroyed");
      }
  }
};
}  // namespace
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver{}}; }
}  // namespace lightstep
namespace {
void Histories(std::vector<std::pair<std::string, uint16_t>> e, int depth) {
  World w{e};
  for (int i = 0; i < depth; ++i) {
    struct Act { int kind; Question* q; int how; };
    std::vector<Act> a;
    if (fake_event::next_timer(w.events.w.bases[0])) a.push_back({1, nullptr, 0});
    if (w.ready) a.push_back({2, nullptr, 0});
    for (auto& x : w.q)
      if (x.second.callback)
        for (int how = 0; how < 4; ++how) a.push_back({0, &x.second, how});
    auto k = a[mc::choose((int)a.size(), "event")];
    if (k.kind == 0) w.Reply(*k.q, k.how);
    else if (k.kind == 1) w.Timer();
    else w.Request();
    w.Check();
  }
  // twice around
  if (w.ready)
    for (size_t i = 0; i < 2 * e.size() + 2; ++i) w.Request();
  mc::outcome(w.ready ? "ready" : "not ready");
  w.Destroy();
}
}  // namespace
MC_SCENARIO(one_name, 0, 0) {
  Single w{mc::choose(2, "family") ? AF_INET6 : AF_INET};
  single = &w;
  if (!entropy::shared_()) entropy::fresh();
  std::seed_seq seed{5, 6, 7, 9};
  GetRandomNumberGenerator().seed(seed);
  w.logger.set_level(LogLevel::off);
  w.ropt.dns_failure_retry_period = std::chrono::microseconds{kRetry};
  w.ropt.min_dns_resolution_refresh_period = std::chrono::microseconds{kMin};
  w.ropt.max_dns_resolution_refresh_period = std::chrono::microseconds{kMax};
  {
    EventBase base;
    SatelliteDnsResolutionManager m{w.logger, base, w.ropt, w.family, "n", [&w] { ++w.ready; }};
    MC_CHECK(!strcmp(m.name(), "n") && m.ip_addresses().empty() && !w.ready && !w.asked, "before the start");
    m.Start();
    for (int i = 0; i < (mc::thorough() ? 9 : 7); ++i) {
      MC_CHECK(w.asked, "not asked");
      int kind = mc::choose(5, "answer");
      static const std::vector<std::vector<int>> sets = {{1}, {2, 3}, {4, 5, 6}, {}, {}};
      Answer a;
      a.addresses = sets[kind];
      auto cb = w.asked;
      w.asked = nullptr;
      int64_t now = w.events.w.now;
      if (kind < 3) {
        w.known = a.addresses;
        w.from = now + kMin;
        w.to = now + kMax;
      } else w.from = w.to = now + kRetry;
      if (kind == 4) cb->OnDnsResolution(DnsResolution{}, "time-out");
      else cb->OnDnsResolution(Resolution{a, w.family}, {});
      MC_CHECK(w.ready == !w.known.empty(), "reported ready %d times with %zu addresses known", w.ready, w.known.size());
      auto& got = m.ip_addresses();
      MC_CHECK(got.size() == w.known.size(), "%zu addresses instead of %zu", got.size(), w.known.size());
      for (size_t k = 0; k < got.size(); ++k) MC_CHECK(got[k] == Make(w.family, w.known[k]), "address %zu differs", k);
      auto e = fake_event::next_timer(w.events.w.bases[0]);
      MC_CHECK(e && e->deadline <= w.to, "not asked for again in time");
      w.events.w.now = e->deadline;
      fake_event::fire(e, EV_TIMEOUT);
      mc::evaluated();
      mc::state(mc::mix(w.known.size(), kind));
    }
  }
  single = nullptr;
  mc::outcome(w.ready ? "ready" : "not ready");
}
MC_SCENARIO(one_host, 1, 2) { Histories({{"a", 8080}}, mc::thorough() ? 8 : 7); }
MC_SCENARIO(two_ports, 1, 2) { Histories({{"a", 8080}, {"a", 443}}, mc::thorough() ? 8 : 7); }
MC_SCENARIO(two_hosts, 1, 1) { Histories({{"a", 1}, {"b", 65535}}, mc::thorough() ? 6 : 5); }
MC_SCENARIO(two_hosts_three_ports, 0, 1) { Histories({{"a", 1}, {"b", 2}, {"a", 3}}, mc::thorough() ? 6 : 5); }
MC_SCENARIO(three_hosts, 0, 1) { Histories({{"a", 1}, {"b", 2}, {"c", 3}}, mc::thorough() ? 6 : 5); }
MC_SCENARIO(no_host, 0, 0) {
  fake_event::Scope events;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  logger.set_level(LogLevel::off);
  LightStepTracerOptions topt;
  topt.satellite_endpoints.clear();
  StreamRecorderOptions ropt;
  EventBase base;
  bool refused = false;
  try {
    SatelliteEndpointManager m{logger, base, topt, ropt, [] { MC_CHECK(false, "ready without a host"); }};
  } catch (const std::exception& e) {
    refused = *e.what();
  }
  MC_CHECK(refused, "an endpoint manager without a host is made");
  MC_CHECK(!fake_event::next_timer(events.w.bases[0]), "a timer remains");
  mc::evaluated();
  mc::outcome("refused");
}

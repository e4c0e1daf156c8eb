// mc: variant=asan
// C35: the c-ares resolver against every order of answers, stray packets,
// truncation, errors, time-outs and destruction; the resolving library and
// the event loop are simulated, with virtual time.
#include <ares.h>
#include <cstring>
#include <map>
#include <set>
#include "fake_event.h"
#include "network/dns_resolver.h"
#include "network/event_base.h"
using namespace lightstep;
namespace {
const int64_t kMs = 1000;
struct Query {
  int id, family;
  std::string name;
  ares_host_callback cb;
  void* arg;
  int fd = -1;
  int tries = 0;
  int64_t expires = -1, gives_up = -1;
};
struct Sock {
  bool tcp = false;
  int r = 0, w = 0;
};
enum Incoming { kStray, kOne, kTwo, kNoData, kServFail, kTruncated, kReset, kIncoming };
struct World;
World* world;
}  // namespace
struct ares_channeldata {
  ares_sock_state_cb state_cb;
  void* state_arg;
  std::vector<Query*> queries;
  std::map<int, Sock> socks;
  int64_t timeout;
};
namespace {
struct Callback final : DnsResolutionCallback {
  int id = 0, called = 0;
  // what the library said
  int answered = -1;  // -1 not yet; otherwise a status
  int family = 0, addresses = 0;
  bool resolve_again = false;
  void OnDnsResolution(const DnsResolution& r, opentracing::string_view e) noexcept override;
};
struct World {
  fake_event::Scope events;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  std::unique_ptr<EventBase> base;
  std::unique_ptr<DnsResolver> resolver;
  std::vector<std::unique_ptr<Callback>> callbacks;
  ares_channeldata* channel = nullptr;
  int next_fd = 100;
  Incoming incoming = kStray;
  int about = -1;  // the query the packet is for
  bool clean = false;
  int in_library = 0;
  int64_t now() { return events.w.now; }
  World() { world = this; }
  ~World() {
    if (channel) Free();
    world = nullptr;
  }
  void Free() {
    for (auto q : channel->queries) delete q;
    delete channel;
    channel = nullptr;
  }
  void State(int fd, int r, int w) {
    auto& c = *channel;
    if (!r && !w) c.socks.erase(fd);
    else {
      c.socks[fd].r = r;
      c.socks[fd].w = w;
    }
    mc::log("  library: socket %d %s%s%s", fd, r ? "read " : "", w ? "write" : "", !r && !w ? "closed" : "");
    c.state_cb(c.state_arg, fd, r, w);
  }
  int Open(bool tcp) {
    int fd = next_fd++;
    channel->socks[fd].tcp = tcp;
    State(fd, 1, tcp);
    return fd;
  }
  void CloseIfUnused(int fd) {
    if (fd < 0 || !channel->socks.count(fd)) return;
    for (auto q : channel->queries)
      if (q->fd == fd) return;
    State(fd, 0, 0);
  }
  void End(Query* q, int status, int addresses) {
    auto& v = channel->queries;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] == q) v.erase(v.begin() + i);
    int fd = q->fd;
    Answer(*q, status, addresses);
    delete q;
    CloseIfUnused(fd);
  }
  // calls back as the library does
  void Answer(const Query& q, int status, int addresses) {
    Callback* target = nullptr;
    for (auto& c : callbacks)
      if (c->id == q.id) target = c.get();
    MC_CHECK(target && target->answered < 0, "harness");
    target->answered = status;
    target->family = q.family;
    target->addresses = addresses;
    mc::log("  library: answer %d (%d addresses) for query %d", status, addresses, q.id);
    if (status != ARES_SUCCESS) return q.cb(q.arg, status, q.tries, nullptr);
    // exactly allocated, so that any access beyond is seen
    std::vector<std::unique_ptr<char[]>> data;
    std::unique_ptr<char*[]> list{new char*[addresses + 1]};
    for (int i = 0; i < addresses; ++i) {
      size_t n = q.family == AF_INET ? 4 : 16;
      data.emplace_back(new char[n]);
      for (size_t k = 0; k < n; ++k) data[i][k] = (char)(q.id * 16 + i * 3 + k);
      list[i] = data[i].get();
    }
    list[addresses] = nullptr;
    hostent h = {};
    std::string name = q.name;
    char* none[] = {nullptr};
    h.h_name = &name[0];
    h.h_aliases = none;
    h.h_addrtype = q.family;
    h.h_length = q.family == AF_INET ? 4 : 16;
    h.h_addr_list = list.get();
    q.cb(q.arg, ARES_SUCCESS, q.tries, &h);
  }
  void Timeouts() {
    auto v = channel->queries;
    for (auto q : v) {
      bool there = false;
      for (auto x : channel->queries) there |= x == q;
      if (!there || q->expires > now()) continue;
      if (++q->tries < 2) {
        q->expires = now() + 2 * channel->timeout;
        mc::log("  library: query %d sent again", q->id);
      } else End(q, ARES_ETIMEOUT, 0);
    }
  }
  void Process(int rfd, int wfd) {
    auto& c = *channel;
    if (wfd != ARES_SOCKET_BAD && c.socks.count(wfd) && c.socks[wfd].w) {
      c.socks[wfd].w = 0;
      State(wfd, 1, 0);
    }
    if (rfd != ARES_SOCKET_BAD && c.socks.count(rfd)) {
      Query* q = nullptr;
      for (auto x : c.queries)
        if (x->id == about && x->fd == rfd) q = x;
      Incoming what = incoming;
      incoming = kStray;
      if (q) switch (what) {
          case kOne: End(q, ARES_SUCCESS, 1); break;
          case kTwo: End(q, ARES_SUCCESS, 2); break;
          case kNoData: End(q, ARES_ENODATA, 0); break;
          case kServFail: End(q, ARES_ESERVFAIL, 0); break;
          case kTruncated: {
            int old = q->fd;
            q->fd = Open(true);
            CloseIfUnused(old);
            break;
          }
          case kReset: {
            // every query of the socket goes elsewhere
            std::vector<Query*> moved;
            for (auto x : c.queries)
              if (x->fd == rfd) moved.push_back(x);
            for (auto x : moved) x->fd = -1;
            State(rfd, 0, 0);
            int fd = -1;
            for (auto x : moved) {
              if (++x->tries >= 2) { End(x, ARES_ECONNREFUSED, 0); continue; }
              if (fd < 0) fd = Open(false);
              x->fd = fd;
              x->expires = now() + 2 * c.timeout;
            }
            break;
          }
          default: break;
        }
    }
    Timeouts();
  }
  // harness actions
  bool Resolve(bool again = false) {
    std::unique_ptr<Callback> cb{new Callback};
    cb->id = (int)callbacks.size() + 1;
    cb->resolve_again = again;
    Callback& r = *cb;
    callbacks.push_back(std::move(cb));
    int family = r.id % 2 ? AF_INET : AF_INET6;
    mc::log("resolve, query %d", r.id);
    std::string name = "host" + std::to_string(r.id);
    resolver->Resolve(name.c_str(), family, r);  // the name need not outlive the call for the library
    return true;
  }
  event* Watch(int fd) {
    event* r = nullptr;
    for (auto e : events.w.events)
      if (e->fd == fd && e->fd >= 0) {
        MC_CHECK(!r, "socket %d is watched twice", fd);
        r = e;
      }
    return r;
  }
  void Check(bool faults) {
    uint64_t h = 3;
    for (auto e : events.w.events)
      if (e->fd >= 0) MC_CHECK(channel->socks.count(e->fd), "socket %d, which the library has closed, is watched", e->fd);
    for (auto& s : channel->socks) {
      h = mc::mix(h, s.second.r * 2 + s.second.w + s.second.tcp * 4);
      if (faults) continue;
      event* e = Watch(s.first);
      MC_CHECK(e && e->pending, "socket %d is not watched%s", s.first, e ? " any more" : "");
      MC_CHECK(!!(e->flags & EV_READ) == !!s.second.r && !!(e->flags & EV_WRITE) == !!s.second.w, "socket %d is watched for other events than the library asked for", s.first);
    }
    int64_t first = -1;
    for (auto q : channel->queries) {
      if (first < 0 || q->expires < first) first = q->expires;
      h = mc::mix(h, q->tries * 10 + (q->fd >= 0));
    }
    if (first >= 0 && !faults) {
      event* t = fake_event::next_timer(events.w.bases[0]);
      MC_CHECK(t, "a query is outstanding without a timer");
      MC_CHECK(t->deadline <= first, "the timer is %ld us after the query's time-out", (long)(t->deadline - first));
    }
    for (auto& c : callbacks) {
      MC_CHECK(c->called == (c->answered >= 0), "query %d: answered %d, called back %d times", c->id, c->answered >= 0, c->called);
      h = mc::mix(h, c->called);
    }
    mc::state(mc::mix(h, first < 0 ? 0 : (first - now()) / kMs));
    mc::evaluated();
  }
  void Timer() {
    event* t = fake_event::next_timer(events.w.bases[0]);
    events.w.now = std::max(now(), t->deadline);
    mc::log("timer at %ld us", (long)now());
    fake_event::fire(t, EV_TIMEOUT);
  }
};
void Callback::OnDnsResolution(const DnsResolution& r, opentracing::string_view e) noexcept {
  ++called;
  MC_CHECK(called == 1, "query %d is answered %d times", id, called);
  MC_CHECK(answered >= 0, "query %d is answered before the library did", id);
  int n = 0;
  std::vector<IpAddress> got;
  bool all = r.ForeachIpAddress([&](const IpAddress& a) { got.push_back(a); ++n; return true; });
  MC_CHECK(all, "an iteration that was not stopped reports so");
  if (answered != ARES_SUCCESS) {
    MC_CHECK(!e.empty(), "a failed query is reported without an error");
    MC_CHECK(n == 0, "a failed query has addresses");
  } else {
    MC_CHECK(e.empty(), "a successful query is reported with an error");
    MC_CHECK(n == addresses, "%d addresses instead of %d", n, addresses);
    for (int i = 0; i < n; ++i) {
      MC_CHECK(got[i].family() == family, "address of another family");
      const unsigned char* p = family == AF_INET ? (const unsigned char*)&got[i].ipv4_address().sin_addr : (const unsigned char*)&got[i].ipv6_address().sin6_addr;
      for (int k = 0; k < (family == AF_INET ? 4 : 16); ++k) MC_CHECK(p[k] == (unsigned char)(id * 16 + i * 3 + k), "address %d differs", i);
    }
    if (n == 2) {
      int seen = 0;
      MC_CHECK(!r.ForeachIpAddress([&](const IpAddress&) { ++seen; return false; }) && seen == 1, "a stopped iteration goes on");
    }
  }
  if (resolve_again && world->resolver) {
    resolve_again = false;
    world->Resolve();
  }
}
}  // namespace
extern "C" {
int ares_library_init(int) { return ARES_SUCCESS; }
void ares_library_cleanup() {}
const char* ares_strerror(int code) { return code == ARES_ETIMEOUT ? "time-out" : code == ARES_EDESTRUCTION ? "destruction" : "another error"; }
int ares_init_options(ares_channel_t** out, const ares_options* o, int mask) {
  if (!world->clean && mc::deviate(2, "ares_init_options")) return ARES_ENOMEM;
  MC_CHECK(mask & ARES_OPT_SOCK_STATE_CB, "no callback for socket states");
  auto c = new ares_channeldata;
  c->state_cb = o->sock_state_cb;
  c->state_arg = o->sock_state_cb_data;
  c->timeout = (mask & ARES_OPT_TIMEOUTMS ? o->timeout : 5000) * kMs;
  MC_CHECK(mask & ARES_OPT_UDP_PORT && o->udp_port == 53 && mask & ARES_OPT_TCP_PORT && o->tcp_port == 53, "port %d/%d", o->udp_port, o->tcp_port);
  MC_CHECK(c->timeout == 300 * kMs, "time-out of %ld us", (long)c->timeout);
  MC_CHECK(mask & ARES_OPT_SERVERS && o->nservers == 2 && o->servers[1].s_addr == 7, "servers");
  MC_CHECK(!world->channel, "two channels");
  world->channel = c;
  *out = c;
  return ARES_SUCCESS;
}
void ares_destroy(ares_channel_t* c) {
  MC_CHECK(c == world->channel && c, "ares_destroy of an unknown channel");
  while (!c->queries.empty()) {
    Query* q = c->queries.front();
    q->fd = -1;
    world->End(q, ARES_EDESTRUCTION, 0);
  }
  while (!c->socks.empty()) world->State(c->socks.begin()->first, 0, 0);
  world->Free();
}
void ares_gethostbyname(ares_channel_t* c, const char* name, int family, ares_host_callback cb, void* arg) {
  MC_CHECK(c == world->channel, "unknown channel");
  Query q{(int)world->callbacks.size(), family, name, cb, arg};
  MC_CHECK(q.name == "host" + std::to_string(q.id) && family == (q.id % 2 ? AF_INET : AF_INET6), "another name or family is asked for");
  int how = world->clean ? 0 : mc::deviate(5, "ares_gethostbyname");
  if (how == 1) return world->Answer(q, ARES_ENOTFOUND, 0);
  if (how == 2) return world->Answer(q, ARES_SUCCESS, 1);
  auto p = new Query(q);
  p->expires = world->now() + c->timeout;
  c->queries.push_back(p);
  int reuse = -1;
  if (how == 0)
    for (auto& s : c->socks)
      if (!s.second.tcp) reuse = s.first;
  p->fd = reuse >= 0 ? reuse : world->Open(how == 3);
}
void ares_process_fd(ares_channel_t* c, ares_socket_t r, ares_socket_t w) {
  MC_CHECK(c == world->channel, "unknown channel");
  world->Process(r, w);
}
timeval* ares_timeout(ares_channel_t* c, timeval* maxtv, timeval* tv) {
  MC_CHECK(c == world->channel, "unknown channel");
  if (c->queries.empty()) return maxtv;
  int64_t d = -1;
  for (auto q : c->queries)
    if (d < 0 || q->expires < d) d = q->expires;
  d = std::max<int64_t>(0, d - world->now());
  int64_t max = maxtv ? maxtv->tv_sec * 1000000ll + maxtv->tv_usec : -1;
  if (max >= 0 && max < d) return maxtv;
  tv->tv_sec = d / 1000000;
  tv->tv_usec = d % 1000000;
  return tv;
}
}
namespace {
void Run(int depth, int max_queries, bool deviate_actions, bool faults) {
  World w;
  w.logger.set_level(LogLevel::off);
  w.base.reset(new EventBase{});
  DnsResolverOptions o;
  o.timeout = std::chrono::milliseconds{300};
  o.resolution_servers = {in_addr{5}, in_addr{7}};
  if (faults) w.events.w.fail = [&w](const char* op) { return !w.clean && strcmp(op, "event_del") && mc::deviate(2, op); };
  bool threw = false;
  try {
    w.resolver = MakeDnsResolver(w.logger, *w.base, o);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  if (threw) {
    MC_CHECK(!w.channel, "the library's channel is never freed");
    MC_CHECK(w.events.w.events.empty(), "an event is never freed");
    return mc::outcome("not made");
  }
  w.Resolve();
  w.Check(faults);
  for (int i = 0; i < depth; ++i) {
    struct Act { int kind; event* e; int what, about; };
    std::vector<Act> a;
    for (auto& s : w.channel->socks) {
      event* e = w.Watch(s.first);
      if (!e || !e->pending) continue;
      if (s.second.w) a.push_back({'w', e, 0, 0});
      if (!s.second.r) continue;
      for (auto q : w.channel->queries)
        if (q->fd == s.first)
          for (int k = 1; k < kIncoming; ++k)
            if (k != kTruncated || !s.second.tcp) a.push_back({'r', e, k, q->id});
      a.push_back({'r', e, kStray, 0});
      if (s.second.w) a.push_back({'b', e, kStray, 0});
    }
    if (fake_event::next_timer(w.events.w.bases[0])) a.push_back({'t', nullptr, 0, 0});
    if ((int)w.callbacks.size() < max_queries) { a.push_back({'n', nullptr, 0, 0}); a.push_back({'n', nullptr, 1, 0}); }
    a.push_back({'x', nullptr, 0, 0});
    auto k = a[deviate_actions ? mc::deviate((int)a.size(), "event") : mc::choose((int)a.size(), "event")];
    if (k.kind == 'x') break;
    if (k.kind == 'n') w.Resolve(k.what);
    if (k.kind == 't') w.Timer();
    if (k.kind == 'w' || k.kind == 'b' || k.kind == 'r') {
      w.incoming = (Incoming)k.what;
      w.about = k.about;
      mc::log("socket %d: %c %d", k.e->fd, k.kind, k.what);
      fake_event::fire(k.e, (short)((k.kind != 'w' ? EV_READ : 0) | (k.kind != 'r' ? EV_WRITE : 0)));
      w.incoming = kStray;
    }
    w.Check(faults);
  }
  w.clean = true;
  // nobody answers any more, or everything is destroyed
  if (mc::choose(2, "end") && !faults) {
    for (int i = 0; i < 20 && !w.channel->queries.empty(); ++i) {
      w.Timer();
      w.Check(false);
    }
    MC_CHECK(w.channel->queries.empty(), "queries never end");
    mc::outcome("timed out");
  } else mc::outcome("destroyed");
  for (auto& c : w.callbacks) c->resolve_again = false;
  w.resolver.reset();
  MC_CHECK(!w.channel, "the library's channel is never freed");
  for (auto& c : w.callbacks) MC_CHECK(c->called == 1, "query %d is answered %d times", c->id, c->called);
  w.base.reset();
  MC_CHECK(w.events.w.bases.empty() && w.events.w.events.empty(), "left behind: %s", fake_event::summary().c_str());
}
}  // namespace
MC_SCENARIO(one_query, 2, 3) { Run(mc::thorough() ? 7 : 6, 1, false, false); }
MC_SCENARIO(queries, 1, 2) { Run(mc::thorough() ? 6 : 5, 3, false, false); }
MC_SCENARIO(long_run, 4, 5) { Run(mc::thorough() ? 14 : 12, 3, true, false); }
MC_SCENARIO(event_faults, 4, 5) { Run(mc::thorough() ? 8 : 6, 3, true, true); }

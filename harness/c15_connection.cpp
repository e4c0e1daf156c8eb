// mc: variant=asan skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp wrap=socket,connect,fcntl,setsockopt,read,writev,close
// C15: the satellite connections against every order of readiness, time-outs,
// write cuts, errors and closes of a simulated network with virtual time.
#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include "fake_event.h"
#include "entropy.h"
#include "common/random.h"
#include "recorder/stream_recorder/satellite_streamer.h"
#include "stream_account.h"
using namespace lightstep;
// what is not about the bytes and the counts
#ifdef ACCOUNT_ONLY
#define LIVE_CHECK(...) ((void)0)
#else
#define LIVE_CHECK MC_CHECK
#endif
namespace {
const int kFirstFd = 20000;
struct Sock {
  int fd, family;
  bool open = true, connect_called = false, refused = false, writable_seen = false, nonblocking = false;
  bool response_read = false, peer_ended = false, errored = false, garbage = false, error_status = false;
  std::string wire;
  std::string host;  // the one whose address and port it connects to
  int64_t born = 0, died = -1;
  int64_t stalled_since = -1;  // a write did not take everything (or none happened yet) since
  std::vector<std::pair<std::string, int>> inbox;  // answers of the next reads: bytes, or (error, 0 = end)
};
struct Net {
  std::vector<Sock> socks;
  bool clean = false;
  bool setup_faults = true;
  Sock* find(int fd) {
    size_t i = (size_t)(fd - kFirstFd);
    return i < socks.size() ? &socks[i] : nullptr;
  }
  Sock& use(int fd, const char* op) {
    Sock* s = find(fd);
    MC_CHECK(s, "%s on descriptor %d", op, fd);
    MC_CHECK(s->open, "%s on descriptor %d, which was closed", op, fd);
    return *s;
  }
  int open_count() {
    int n = 0;
    for (auto& s : socks) n += s.open;
    return n;
  }
  bool forbid_socket = false;
  std::function<void()> on_socket, on_connect_failure;
  std::function<void(Sock&)> on_close, on_write;
  std::function<std::string(const sockaddr_in&)> name;
} *net;
bool ours(int fd) { return net && fd >= kFirstFd; }
}  // namespace
extern "C" {
int __real_socket(int, int, int);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_fcntl(int, int, ...);
int __real_setsockopt(int, int, int, const void*, socklen_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_writev(int, const iovec*, int);
int __real_close(int);
int __wrap_socket(int family, int type, int proto) {
  if (!net) return __real_socket(family, type, proto);
  if (net->on_socket) net->on_socket();
  if (net->setup_faults && !net->clean && mc::deviate(2, "socket")) {
    mc::log("socket() fails");
    if (net->on_connect_failure) net->on_connect_failure();
    errno = EMFILE;
    return -1;
  }
  Sock s;
  s.fd = kFirstFd + (int)net->socks.size();
  s.family = family;
  s.born = fake_event::world().now;
  s.stalled_since = s.born;
  net->socks.push_back(s);
  mc::log("socket() = %d at %ld us", s.fd, (long)s.born);
  return s.fd;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  if (!ours(fd)) return __real_connect(fd, a, n);
  Sock& s = net->use(fd, "connect");
  MC_CHECK(!s.connect_called, "connect twice on descriptor %d", fd);
  MC_CHECK(s.nonblocking, "connect on descriptor %d, which blocks", fd);
  MC_CHECK(a->sa_family == s.family, "connect of a family %d socket to a family %d address", s.family, a->sa_family);
  s.connect_called = true;
  MC_CHECK(n == sizeof(sockaddr_in) && a->sa_family == AF_INET, "connect of descriptor %d to an address of %d bytes", fd, (int)n);
  s.host = net->name(*(const sockaddr_in*)a);
  mc::log("connect(%d) to %s", fd, s.host.c_str());
  int c = net->clean || !net->setup_faults ? 0 : mc::deviate(3, "connect");
  if (c == 1) {
    mc::log("connect(%d) refused", fd);
    if (net->on_connect_failure) net->on_connect_failure();
    errno = ECONNREFUSED;
    return -1;
  }
  if (c == 2) return 0;
  errno = EINPROGRESS;
  return -1;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!ours(fd)) return __real_fcntl(fd, cmd, arg);
  Sock& s = net->use(fd, "fcntl");
  if (cmd == F_GETFL) return O_RDWR;
  if (cmd == F_SETFL) {
    if (net->setup_faults && !net->clean && mc::deviate(2, "fcntl")) {
      if (net->on_connect_failure) net->on_connect_failure();
      errno = EINVAL;
      return -1;
    }
    s.nonblocking = arg & O_NONBLOCK;
  }
  return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
  if (!ours(fd)) return __real_setsockopt(fd, level, name, v, n);
  net->use(fd, "setsockopt");
  return 0;
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
  if (!ours(fd)) return __real_read(fd, p, n);
  Sock& s = net->use(fd, "read");
  if (s.inbox.empty()) {
    if (s.peer_ended) return 0;
    errno = s.errored ? ECONNRESET : EAGAIN;
    return -1;
  }
  auto a = s.inbox.front();
  s.inbox.erase(s.inbox.begin());
  if (!a.first.empty()) {
    MC_CHECK(n >= a.first.size(), "harness: a read of %zu bytes", n);
    memcpy(p, a.first.data(), a.first.size());
    return (ssize_t)a.first.size();
  }
  if (a.second == 0) {
    s.peer_ended = true;
    return 0;
  }
  if (a.second != EAGAIN) s.errored = true;
  errno = a.second;
  return -1;
}
ssize_t __wrap_writev(int fd, const iovec* v, int n) {
  if (!ours(fd)) return __real_writev(fd, v, n);
  Sock& s = net->use(fd, "writev");
  MC_CHECK(s.writable_seen, "write on descriptor %d before it was connected", fd);
  std::string all;
  for (int i = 0; i < n; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  int c = net->clean || all.empty() ? 0 : mc::deviate(5, "writev");
  if (s.errored || s.peer_ended) {
    // the peer is gone: a write may still be accepted once, or fail
    if (c >= 2) c = 2;
  }
  mc::log("  writev(%d, %zu bytes) %s", fd, all.size(), c == 0 ? "takes all" : c == 1 ? "would block" : c == 2 ? "fails" : c == 3 ? "takes 1" : "takes half");
  size_t k = all.size();
  if (c == 1 || c == 2) {
    errno = c == 1 ? EAGAIN : ECONNRESET;
    if (c == 2) {
      // (nothing was ever written: connecting failed)
      if (s.wire.empty() && net->on_connect_failure) net->on_connect_failure();
      s.errored = true;
    }
    if (c == 1 && s.stalled_since < 0) s.stalled_since = fake_event::world().now;
    return -1;
  }
  if (c == 3) k = 1;
  if (c == 4) k = all.size() - all.size() / 2;
  s.wire += all.substr(0, k);
  s.stalled_since = k < all.size() ? fake_event::world().now : -1;
  if (net->on_write) net->on_write(s);
  return (ssize_t)k;
}
int __wrap_close(int fd) {
  if (!ours(fd)) return __real_close(fd);
  Sock& s = net->use(fd, "close");
  s.open = false;
  s.died = fake_event::world().now;
  mc::log("  close(%d)", fd);
  if (net->on_close) net->on_close(s);
  return 0;
}
}
namespace {
const int64_t kWrite = 5000000, kRetry = 1000000, kMin = 6000000, kMax = 7000000, kGrace = 4000000, kTick = 700000;
struct FakeResolver;
struct World;
World* world;
typedef std::vector<std::pair<std::string, uint16_t>> Endpoints;
struct FakeResolution final : DnsResolution {
  int host;
  explicit FakeResolution(int h) : host(h) {}
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    in_addr a;
    a.s_addr = htonl(0x7f000001 + (uint32_t)host);
    return f(IpAddress{a});
  }
};
struct World {
  fake_event::Scope events;
  Net n;
  CountingObserver obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buf;
  StreamAccount account;
  Logger logger{[](LogLevel, opentracing::string_view m) { mc::log("    log: %.*s", (int)m.size(), m.data()); }};
  LightStepTracerOptions topt;
  StreamRecorderOptions ropt;
  std::unique_ptr<EventBase> base;
  std::unique_ptr<SatelliteStreamer> streamer;
  std::vector<std::pair<int, DnsResolutionCallback*>> waiting;  // IPv4 questions not answered yet
  std::vector<char> known;                                      // hosts with an answer
  bool answer_at_once = true;
  int nconn;
  // per scenario with one connection
  int64_t failed_at = -1, closed_at = -1;
  int64_t shutdown_at = -1;
  bool destroying = false, started = false;
  bool event_faults = false;  // operations of the event loop fail: only what it holds is judged
  int produced = 0;
  explicit World(int conns, int seed_choice = 0, int cap = 3, const Endpoints& hosts = {{"satellite", 8080}}) : buf{(size_t)cap}, nconn(conns) {
    world = this;
    known.assign(hosts.size(), 0);
    if (!entropy::shared_()) entropy::fresh();
    std::seed_seq seed{11, 12, 13, seed_choice};
    GetRandomNumberGenerator().seed(seed);
    net = &n;
    if (mc::logging()) logger.set_level(LogLevel::debug);
    else logger.set_level(LogLevel::off);
    topt.access_token = "token";
    topt.satellite_endpoints = hosts;
    n.name = [this](const sockaddr_in& a) {
      size_t h = ntohl(a.sin_addr.s_addr) - 0x7f000001;
      MC_CHECK(h < topt.satellite_endpoints.size() && known[h], "connecting to address %x", ntohl(a.sin_addr.s_addr));
      auto& e = topt.satellite_endpoints[h];
      MC_CHECK(ntohs(a.sin_port) == e.second, "connecting to port %d of %s", ntohs(a.sin_port), e.first.c_str());
      return e.first;
    };
    ropt.num_satellite_connections = conns;
    ropt.satellite_write_timeout = std::chrono::microseconds{kWrite};
    ropt.satellite_failure_retry_period = std::chrono::microseconds{kRetry};
    ropt.min_satellite_reconnect_period = std::chrono::microseconds{kMin};
    ropt.max_satellite_reconnect_period = std::chrono::microseconds{kMax};
    ropt.satellite_graceful_stream_shutdown_timeout = std::chrono::microseconds{kGrace};
    ropt.min_dns_resolution_refresh_period = ropt.max_dns_resolution_refresh_period = std::chrono::microseconds{3600ll * 1000000};
    n.on_socket = [this] {
      LIVE_CHECK(destroying || streamer == nullptr || streamer->is_active(), "a socket is opened although the connections have been shut down");
      LIVE_CHECK(n.open_count() < nconn, "%d sockets open for %d connections", n.open_count() + 1, nconn);
      if (nconn == 1 && failed_at >= 0 && !event_faults) {
        LIVE_CHECK(events.w.now >= failed_at + kRetry, "connecting again %ld us after a failure to connect", (long)(events.w.now - failed_at));
        failed_at = -1;
      }
      closed_at = -1;
      started = true;
    };
    n.on_connect_failure = [this] { failed_at = events.w.now; closed_at = events.w.now; };
    n.on_close = [this](Sock& s) { OnClose(s); };
    n.on_write = [this](Sock& s) {
      if (!destroying && shutdown_at < 0 && Terminated(s))
        LIVE_CHECK(now() >= s.born + kMin, "descriptor %d: the stream is ended after %ld us", s.fd, (long)(now() - s.born));
    };
  }
  void Start() {
    base.reset(new EventBase{});
    streamer.reset(new SatelliteStreamer{logger, *base, topt, ropt, metrics, buf});
  }
  ~World() { net = nullptr; world = nullptr; }
  int64_t now() { return events.w.now; }
  void OnClose(Sock& s) {
    closed_at = now();
    if (destroying || event_faults || failed_at == now()) return;
    if (s.errored || s.peer_ended) return;
    // nobody else ended it: it was closed because a write took too long or at the end of its life
    bool write_late = s.stalled_since >= 0 && now() >= s.stalled_since + kWrite;
    bool recycled = now() >= s.born + kMin + kGrace;
    bool shut = shutdown_at >= 0 && now() >= shutdown_at + kGrace;
    LIVE_CHECK(write_late || recycled || shut || s.garbage, "descriptor %d is closed after %ld us without a reason", s.fd, (long)(now() - s.born));
  }
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) {
    size_t h = 0;
    while (h < topt.satellite_endpoints.size() && topt.satellite_endpoints[h].first != name) ++h;
    MC_CHECK(h < topt.satellite_endpoints.size(), "\"%s\" is looked up", name);
    if (family != AF_INET) return;  // never answered
    waiting.push_back({(int)h, &cb});
    if (answer_at_once) Answer();
  }
  void Answer() {
    while (!waiting.empty()) AnswerOne(0);
  }
  void AnswerOne(size_t k) {
    auto x = waiting[k];
    waiting.erase(waiting.begin() + (long)k);
    known[x.first] = 1;
    x.second->OnDnsResolution(FakeResolution{x.first}, {});
  }
  // events
  event* of(Sock& s, short flag) {
    for (auto e : events.w.events)
      if (e->fd == s.fd && e->pending && (e->flags & flag)) return e;
    return nullptr;
  }
  bool Span() {
    std::string p = SpanPayload(produced, produced % 2 ? 40 : 0);
    ++produced;
    auto st = MakeChained(FrameChunk(p));
    bool ok = buf.Add(st);
    if (ok) account.recorded.push_back(p);
    else { metrics.OnSpansDropped(1); ++account.refused; }
    return ok;
  }
  void Timer() {
    event* e = fake_event::next_timer(base_());
#ifdef ACCOUNT_ONLY
    if (!e) return;
#endif
    MC_CHECK(e, "harness: no timer");
    CheckAdvance(e->deadline);
    events.w.now = std::max(events.w.now, e->deadline);
    mc::log("timer%s at %ld us", e->fd >= 0 ? " of a descriptor" : "", (long)now());
    fake_event::fire(e, EV_TIMEOUT);
  }
  event_base* base_() { return events.w.bases[0]; }
  // time is about to pass until t
  void CheckAdvance(int64_t t) {
    if (!event_faults && nconn == 1 && n.open_count() == 0 && started && streamer->is_active() && closed_at >= 0)
      LIVE_CHECK(t <= closed_at + kRetry, "no attempt to connect for %ld us after the socket was closed", (long)(t - closed_at));
    for (auto& s : n.socks) {
      if (!s.open || event_faults) continue;
      LIVE_CHECK(t <= std::max(s.born + kMax, shutdown_at) + kGrace, "descriptor %d is in use for %ld us", s.fd, (long)(t - s.born));
    }
    if (shutdown_at >= 0 && streamer->is_active())
      LIVE_CHECK(t <= shutdown_at + kGrace, "still not shut down %ld us after being asked to", (long)(t - shutdown_at));
  }
  void Readable(Sock& s, int how) {
    event* e = of(s, EV_READ);
    MC_CHECK(e, "harness: not readable");
    static const char* what[] = {"a complete response and the end", "a response", "the end", "an error response and the end", "a reset", "nothing", "half a status line", "garbage"};
    mc::log("descriptor %d readable: %s", s.fd, what[how]);
    switch (how) {
      case 0: s.inbox = {{"HTTP/1.1 200 O", 0}, {"K", 0}, {"\r\n\r\n", 0}, {"", 0}}; break;
      case 1: s.inbox = {{"HTTP/1.1 200 OK\r\n\r", 0}, {"\n", 0}, {"", EAGAIN}}; break;
      case 2: s.inbox = {{"", 0}}; break;
      case 3: s.error_status = true; s.inbox = {{"HTTP/1.1 5", 0}, {"00 Broken\r\n", 0}, {"", 0}}; break;
      case 4: s.inbox = {{"", ECONNRESET}}; break;
      case 5: s.inbox = {{"", EAGAIN}}; break;
      case 6: s.inbox = {{"HTTP/1.1 2", 0}, {"", EAGAIN}}; break;
      default: s.inbox = {{"XYZZY\r\n", 0}, {"", EAGAIN}}; s.garbage = true;
    }
    int fd = s.fd;
    fake_event::fire(e, EV_READ);
    Sock* t = n.find(fd);
    t->errored |= how == 4;
    if (how == 4 && !event_faults) LIVE_CHECK(!t->open, "descriptor %d is still open after an error", fd);
    t->inbox.clear();
  }
  void Writable(Sock& s) {
    event* e = of(s, EV_WRITE);
    MC_CHECK(e, "harness: not writable");
    s.writable_seen = true;
    s.stalled_since = -1;
    mc::log("descriptor %d writable", s.fd);
    fake_event::fire(e, EV_WRITE);
  }
  void Flush() {
    mc::log("flush");
    streamer->Flush();
    // nothing waits while a connection could take it
    for (auto& s : n.socks)
      if (s.open && s.writable_seen && s.stalled_since < 0 && !Terminated(s) && !s.errored && !s.peer_ended)
        LIVE_CHECK(buf.empty(), "%zu spans are left in the buffer although descriptor %d could take them", buf.size(), s.fd);
  }
  static bool Terminated(Sock& s) { return s.wire.size() > 5 && s.wire.compare(s.wire.size() - 5, 5, "0\r\n\r\n") == 0; }
  void Shutdown() {
    mc::log("shut down");
    if (shutdown_at < 0) shutdown_at = now();
    streamer->InitiateShutdown();
  }
  void Check() {
    if (!streamer->is_active()) {
      LIVE_CHECK(shutdown_at >= 0, "the connections ended without being asked to");
      LIVE_CHECK(n.open_count() == 0, "shut down with %d sockets open", n.open_count());
    }
    for (auto& s : n.socks) {
      if (!s.open || event_faults) continue;
      // the peer must be heard at any time
      LIVE_CHECK(of(s, EV_READ), "descriptor %d is open but not watched", s.fd);
      // and whatever is left to write must go on when possible
      if (s.stalled_since >= 0) {
        event* e = of(s, EV_WRITE);
        LIVE_CHECK(e, "descriptor %d waits for room but is not watched", s.fd);
        LIVE_CHECK(e->deadline >= 0 && e->deadline <= s.stalled_since + kWrite, "descriptor %d waits for room without limit", s.fd);
      }
    }
    uint64_t h = 7;
    for (auto& s : n.socks)
      if (s.open) h = mc::mix(h, (now() - s.born) / 1000 * 8 + s.writable_seen * 4 + s.response_read * 2 + (s.stalled_since >= 0));
    for (auto e : events.w.events)
      if (e->pending) h = mc::mix(h, e->flags * 100 + (e->deadline >= 0 ? (e->deadline - now()) / 1000 : -1));
    h = mc::mix(h, buf.size() * 8 + streamer->is_active() * 2 + (shutdown_at >= 0));
    mc::state(h);
    mc::evaluated();
  }
  void Account(bool final = false) {
    std::vector<WireView> v;
    for (auto& s : n.socks) v.push_back({"descriptor " + std::to_string(s.fd), &s.wire, s.open, s.host});
    account.Read(v, "token");
    MC_CHECK(account.started + (long)buf.size() == (long)account.recorded.size(), "%ld spans started, %zu waiting, %zu recorded", account.started, buf.size(), account.recorded.size());
    MC_CHECK(obs.sent == account.complete, "%ld spans counted as sent, %ld are completely on the wire", obs.sent, account.complete);
    MC_CHECK(final || obs.dropped == account.refused + account.cut, "%ld spans counted as dropped, %ld refused and %ld cut off", obs.dropped, account.refused, account.cut);
    MC_CHECK(account.announced + metrics.num_dropped_spans() <= obs.dropped, "%ld drops announced and %d pending, %ld happened", account.announced, metrics.num_dropped_spans(), obs.dropped);
    if (final) MC_CHECK(account.announced + metrics.num_dropped_spans() == obs.dropped, "%ld drops announced and %d pending, %ld happened", account.announced, metrics.num_dropped_spans(), obs.dropped);
  }
  // one step of the environment; false: nothing can happen
  struct Act { int kind, sock, how; };
  std::vector<Act> Actions() {
    std::vector<Act> a;
    event* timer = fake_event::next_timer(base_());
    // the usual course first: write, end a finished stream, let time pass
    for (auto& s : n.socks)
      if (s.open && of(s, EV_WRITE)) a.push_back({'W', s.fd - kFirstFd, 0});
    for (auto& s : n.socks)
      if (s.open && of(s, EV_READ)) {
        bool ended = s.wire.size() > 5 && s.wire.compare(s.wire.size() - 5, 5, "0\r\n\r\n") == 0;
        if (ended) a.push_back({'R', s.fd - kFirstFd, 0});
      }
    if (timer) a.push_back({'T', 0, 0});
    if (!timer || timer->deadline > now() + kTick) a.push_back({'A', 0, 0});
    a.push_back({'S', 0, 0});
    a.push_back({'X', 0, 0});
    for (size_t k = 0; k < (known.size() > 1 ? waiting.size() : std::min<size_t>(1, waiting.size())); ++k) a.push_back({'D', (int)k, 0});
    for (auto& s : n.socks)
      if (s.open && of(s, EV_READ)) {
        bool ended = s.wire.size() > 5 && s.wire.compare(s.wire.size() - 5, 5, "0\r\n\r\n") == 0;
        for (int how = ended ? 1 : 0; how < 8; ++how) a.push_back({'R', s.fd - kFirstFd, how});
      }
    return a;
  }
  void Do(Act a) {
    switch (a.kind) {
      case 'W': Writable(n.socks[a.sock]); break;
      case 'R': Readable(n.socks[a.sock], a.how); break;
      case 'T': Timer(); break;
      case 'S': Span(); Flush(); break;
      case 'X': Shutdown(); break;
      case 'D': known.size() > 1 ? AnswerOne((size_t)a.sock) : Answer(); break;
      case 'A':
        CheckAdvance(now() + kTick);
        events.w.now += kTick;
        mc::log("%ld us", (long)now());
        break;
    }
    Check();
  }
  // a well-behaved network again
  void BenignStep() {
    for (auto& s : n.socks)
      if (s.open && of(s, EV_WRITE)) return Do({'W', s.fd - kFirstFd, 0});
    for (auto& s : n.socks)
      if (s.open && s.wire.size() > 5 && s.wire.compare(s.wire.size() - 5, 5, "0\r\n\r\n") == 0) return Do({'R', s.fd - kFirstFd, 0});
    Timer();
    Check();
  }
  void Settle() {
    n.clean = true;
    if (!waiting.empty()) Answer();
    if (shutdown_at < 0) {
      // spans flow again after at most the retry period
      int64_t t0 = now();
      long before = obs.sent;
      LIVE_CHECK(streamer->is_active(), "the connections ended without being asked to");
      bool delivered = false;
      for (int i = 0; i < 40 && !delivered; ++i) {
        if (buf.empty()) Span();
        Flush();
        Check();
        if (obs.sent > before && buf.empty()) { delivered = true; break; }
        event* e = fake_event::next_timer(base_());
        bool busy = false;
        for (auto& s : n.socks) busy |= s.open && (of(s, EV_WRITE) || (s.wire.size() > 5 && s.wire.compare(s.wire.size() - 5, 5, "0\r\n\r\n") == 0));
        if (!busy) LIVE_CHECK(e && e->deadline <= t0 + kRetry, "spans do not flow although the network has recovered");
        BenignStep();
      }
      LIVE_CHECK(delivered, "spans do not flow although the network has recovered");
      mc::outcome("flows");
      Shutdown();
      Check();
    } else mc::outcome("shut down");
    int obey = mc::choose(2, "peer");
    for (int i = 0; i < 60 && streamer->is_active(); ++i) {
      if (obey) BenignStep();
      else { Timer(); Check(); }
    }
    LIVE_CHECK(!streamer->is_active(), "not shut down");
    Account();
    // nothing may come back to life
    for (int i = 0; i < 8 && fake_event::next_timer(base_()); ++i) {
      if (fake_event::next_timer(base_())->deadline > now() + 1000ll * 1000000) break;
      Timer();
      Check();
    }
    Destroy();
  }
  void Destroy() {
    destroying = true;
    streamer.reset();
    LIVE_CHECK(n.open_count() == 0, "%d sockets are never closed", n.open_count());
    for (auto e : events.w.events) LIVE_CHECK(e->once, "an event is never freed");
    base.reset();
    LIVE_CHECK(events.w.bases.empty() && events.w.events.empty(), "left behind: %s", fake_event::summary().c_str());
    Account(true);
  }
};
struct FakeResolver final : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override { world->Resolve(name, family, cb); }
};
}  // namespace
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver{}}; }
}  // namespace lightstep
namespace {
// every sequence of events from the start; write cuts and set-up failures deviate
void Histories(int conns, int depth, bool deviate_actions) {
  World w{conns, conns > 1 ? mc::choose(2, "random numbers") : 0};
  w.answer_at_once = mc::choose(2, "dns at once") == 0;
  w.Start();
  w.Check();
  for (int i = 0; i < depth; ++i) {
    auto a = w.Actions();
    int k = deviate_actions ? mc::deviate((int)a.size(), "event") : mc::choose((int)a.size(), "event");
    w.Do(a[k]);
  }
  w.Account();
  w.Settle();
}
// the connections are destroyed in the middle of it
void Destroyed(int depth) {
  World w{2};
  w.Start();
  for (int i = 0; i < depth; ++i) {
    auto a = w.Actions();
    int k = mc::deviate((int)a.size() + 1, "event");
    if (k == (int)a.size()) break;
    w.Do(a[k]);
  }
  w.Destroy();
  mc::outcome("destroyed");
}
// operations of the event loop itself fail
void EventFaults(int depth) {
  World w{1};
  w.event_faults = true;
  w.Start();
  w.events.w.fail = [&w](const char* op) { return !w.n.clean && strcmp(op, "event_del") && mc::deviate(2, op); };
  for (int i = 0; i < depth; ++i) {
    auto a = w.Actions();
    w.Do(a[mc::deviate((int)a.size(), "event")]);
  }
  w.n.clean = true;
  w.Shutdown();
  for (int i = 0; i < 60 && w.streamer->is_active(); ++i) {
    LIVE_CHECK(fake_event::next_timer(w.base_()), "not shut down");
    w.Timer();
    w.Check();
  }
  LIVE_CHECK(!w.streamer->is_active(), "not shut down");
  w.Account();
  w.Destroy();
  mc::outcome("shut down");
}
// Several satellites with names of different lengths.
void Hosts(int conns, int depth) {
  static const Endpoints sets[] = {{{"satellite", 8080}, {"s", 1}, {"a.satellite.far.away", 65535}}, {{"s", 443}, {"satellite", 80}}, {{"one", 5}, {"two", 6}, {"4", 7}}};
  World w{conns, 0, 3, sets[mc::choose(3, "hosts")]};
  int late = mc::choose(3, "dns");
  w.answer_at_once = late == 0;
  w.Start();
  if (late == 2) w.AnswerOne(w.waiting.size() - 1);
  w.Check();
  for (int i = 0; i < depth; ++i) {
    auto a = w.Actions();
    std::vector<World::Act> b;
    for (auto& x : a)
      if (x.kind != 'R' || x.how == 0 || x.how == 4) b.push_back(x);
    w.Do(b[mc::deviate((int)b.size(), "event")]);
  }
  w.Account();
  w.Settle();
  size_t hosts = 0;
  std::vector<std::string> seen;
  for (auto& s : w.n.socks)
    if (std::find(seen.begin(), seen.end(), s.host) == seen.end()) seen.push_back(s.host), ++hosts;
  mc::outcome(std::to_string(hosts) + " hosts");
}
}  // namespace
#ifdef ACCOUNT_ONLY
MC_SCENARIO(one_connection, 0, 1) { Histories(1, mc::thorough() ? 5 : 4, false); }
MC_SCENARIO(long_run, 3, 4) { Histories(1, mc::thorough() ? 12 : 8, true); }
MC_SCENARIO(two_connections, 2, 3) { Histories(2, mc::thorough() ? 12 : 8, true); }
MC_SCENARIO(destroyed, 2, 3) { Destroyed(mc::thorough() ? 10 : 8); }
MC_SCENARIO(hosts, 2, 3) { Hosts(1 + mc::choose(2, "connections"), mc::thorough() ? 14 : 10); }
#else
MC_SCENARIO(hosts, 2, 3) { Hosts(1 + mc::choose(2, "connections"), mc::thorough() ? 14 : 10); }
MC_SCENARIO(one_connection, 1, 2) { Histories(1, mc::thorough() ? 5 : 4, false); }
MC_SCENARIO(long_run, 3, 4) { Histories(1, mc::thorough() ? 12 : 8, true); }
MC_SCENARIO(two_connections, 2, 3) { Histories(2, mc::thorough() ? 12 : 10, true); }
MC_SCENARIO(destroyed, 3, 4) { Destroyed(mc::thorough() ? 10 : 8); }
MC_SCENARIO(event_faults, 3, 4) { EventFaults(mc::thorough() ? 10 : 8); }
#endif

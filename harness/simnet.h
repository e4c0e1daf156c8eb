// A simulated network whose peers act by themselves in virtual time, and the
// event loop that serves it, for harnesses that run the recorder's own thread.
// Included by exactly one file of a harness with
//   wrap=socket,connect,fcntl,setsockopt,read,writev,close
// What other threads look at is kept in Cells: neither scheduling points nor
// accesses a race is looked for in (only one thread runs at a time).
#pragma once
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include "fake_event.h"
#include "threads.h"
#include "wire_oracle.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "network/dns_resolver.h"
#define ORACLE __attribute__((no_sanitize("thread"), noinline))
template <class T> struct Cell { volatile T v; Cell(T x = 0) : v(x) {} };
template <class T> ORACLE T Rd(const Cell<T>& a) { return a.v; }
template <class T, class U> ORACLE void Wr(Cell<T>& a, U x) { a.v = (T)x; }
template <class T> ORACLE T Add(Cell<T>& a, T n) { T o = a.v; a.v = o + n; return o; }
typedef Cell<int> Int;

namespace simnet {
const int kFirstFd = 20000, kMaxSpans = 14;
struct Sock {
  int fd, family;
  bool open = true, connect_called = false, nonblocking = false, connected = false, errored = false, terminated = false, responded = false, ended = false;
  int64_t writable_at = -1, reply_at = -1;  // us; -1: never
  std::string wire;
  int generation = 0;
};
// The span with a given number: the first character of its chunk tells which it is.
inline std::string Body(int id) {
  std::string body;
  for (int n = 0; n < 400; ++n) {
    lightstep::collector::ReportRequest r;
    auto* s = r.add_spans();
    s->mutable_span_context()->set_span_id(id + 1);
    std::string name(n, 'x');
    for (int i = 0; i < n; ++i) name[i] = 'a' + (i * 5 + id) % 26;
    s->set_operation_name(name);
    if ((int)r.ByteSizeLong() == 16 * (id + 1) + 10) return s->SerializeAsString();
  }
  MC_CHECK(false, "harness: no span of the right size");
  return body;
}
inline std::string Payload(int id) {
  lightstep::collector::ReportRequest r;
  MC_CHECK(r.add_spans()->ParseFromString(Body(id)), "harness: span");
  return r.SerializeAsString();
}
// (no local statics: their guards are scheduling points)
struct Prepared {
  std::string body[kMaxSpans], payload[kMaxSpans];
  std::string terminal = "0\r\n\r\n";
  Prepared() { for (int i = 0; i < kMaxSpans; ++i) body[i] = Body(i), payload[i] = Payload(i); }
};
static Prepared prepared;
inline const std::string& BodyOf(int id) { return prepared.body[id]; }
inline const std::string& PayloadOf(int id) { return prepared.payload[id]; }

struct Options {
  int64_t connect_delay = 0;  // us until a socket is connected, -1 never
  int64_t connect_delay_even = -2;  // of the second, fourth… socket, if different
  int64_t reply_delay = 0;    // us until a finished stream is answered, -1 never
  bool write_faults = true;
  bool setup_faults = false;
};
struct Net {
  Options o;
  std::vector<Sock> socks;
  int generation = 0;  // of the recorder's thread: sockets of an earlier one are not to be touched
  Int open_count, made, ready, faults;
  Int writes;
  // spans
  Int started[kMaxSpans], complete[kMaxSpans], order[kMaxSpans];
  Int nstarted, announced, terminals;
  Int idle;      // the recorder's thread waits
  Int consumed;  // spans that have certainly left the buffer
  Cell<int64_t> forbid{INT64_MAX};  // no socket may be opened from now on
  Sock* find(int fd) {
    size_t i = (size_t)(fd - kFirstFd);
    return i < socks.size() ? &socks[i] : nullptr;
  }
  Sock& use(int fd, const char* op) {
    Sock* s = find(fd);
    MC_CHECK(s, "%s on descriptor %d", op, fd);
    MC_CHECK(s->open, "%s on descriptor %d, which was closed", op, fd);
    MC_CHECK(s->generation == generation, "%s on descriptor %d, which belongs to the time before the fork", op, fd);
    return *s;
  }
  static int64_t now() { return mc::virtual_now() / 1000; }
  void Update() {
    int r = 0, o = 0;
    for (auto& s : socks) r += s.open && s.connected && s.writable_at >= 0 && s.writable_at <= now() && !s.terminated && !s.errored, o += s.open;
    Wr(ready, r);
    Wr(open_count, o);
  }
  bool Writable(const Sock& s) { return s.open && s.writable_at >= 0 && s.writable_at <= now(); }
  bool Readable(const Sock& s) { return s.open && (s.errored || (s.reply_at >= 0 && s.reply_at <= now())); }
  int64_t NextChange() {
    int64_t t = INT64_MAX;
    for (auto& s : socks)
      if (s.open)
        for (int64_t x : {s.writable_at, s.reply_at})
          if (x > now()) t = std::min(t, x);
    return t;
  }
  // what all connections together carry
  void Account(const std::string& token) {
    int st[kMaxSpans] = {}, co[kMaxSpans] = {};
    int ann = 0, term = 0;
    for (auto& s : socks) {
      std::string who = "descriptor " + std::to_string(s.fd);
      auto r = ReadWire(s.wire, who.c_str());
      size_t pos = s.wire.find("\r\n\r\n");
      if (pos == std::string::npos) continue;
      pos += 4;
      for (size_t k = 0; k < r.chunks.size(); ++k) {
        if (k == 0) {
          lightstep::collector::ReportRequest rr;
          MC_CHECK(rr.ParseFromString(r.chunks[0]), "%s: the first chunk does not parse", who.c_str());
          MC_CHECK(rr.spans_size() == 0 && rr.auth().access_token() == token, "%s: the first chunk is not the report header", who.c_str());
          for (auto& x : rr.internal_metrics().counts())
            if (x.name() == "spans.dropped") ann += (int)x.int_value();
        } else {
          int id = -1;
          for (int j = 0; j < kMaxSpans; ++j)
            if (PayloadOf(j) == r.chunks[k]) id = j;
          MC_CHECK(id >= 0, "%s: chunk %zu is not one of the spans", who.c_str(), k);
          ++st[id], ++co[id];
        }
        pos = s.wire.find("\r\n", pos) + 2 + r.chunks[k].size() + 2;
      }
      if (r.chunks.empty()) continue;
      std::string tail = pos < s.wire.size() ? s.wire.substr(pos) : "";
      if (tail.empty()) continue;
      const std::string& terminal = prepared.terminal;
      if (tail.size() > 1 && tail[1] == '\r') {
        MC_CHECK(terminal.compare(0, tail.size(), tail) == 0, "%s: ends with something else than the last chunk", who.c_str());
        term += tail == terminal;
        s.terminated = s.terminated || tail == terminal;
        continue;
      }
      // the first digit of its size tells which span it is (writev does not cut before it)
      size_t digit = tail.find_first_not_of('0');
      MC_CHECK(digit != std::string::npos && digit < 8 && isxdigit(tail[digit]), "%s: an unfinished chunk is not a span", who.c_str());
      int id = (tail[digit] <= '9' ? tail[digit] - '0' : (tail[digit] | 32) - 'a' + 10) - 1;
      MC_CHECK(id >= 0 && id < kMaxSpans, "%s: an unfinished chunk is not a span", who.c_str());
      std::string full = PayloadOf(id) + "\r\n", rest = tail.find("\r\n") == std::string::npos ? "" : tail.substr(tail.find("\r\n") + 2);
      MC_CHECK(full.compare(0, rest.size(), rest) == 0, "%s: an unfinished chunk is not the beginning of a span", who.c_str());
      ++st[id];
    }
    for (int i = 0; i < kMaxSpans; ++i) {
      MC_CHECK(st[i] <= 1, "span %d is sent twice", i);
      if (st[i] && !Rd(started[i])) Wr(order[i], Add(nstarted, 1));
      Wr(started[i], st[i]);
      Wr(complete[i], co[i]);
    }
    Wr(announced, ann);
    Wr(terminals, term);
  }
};
static Net* the_net = nullptr;
inline Net*& net_() { return the_net; }
inline bool ours(int fd) { return net_() && fd >= kFirstFd; }
struct Resolution final : lightstep::DnsResolution {
  bool ForeachIpAddress(const lightstep::FunctionRef<bool(const lightstep::IpAddress&)>& f) const override {
    in_addr a;
    a.s_addr = htonl(0x7f000001);
    return f(lightstep::IpAddress{a});
  }
};
// Answers questions for IPv4 addresses at once and others never.
struct Resolver final : lightstep::DnsResolver {
  void Resolve(const char*, int family, lightstep::DnsResolutionCallback& cb) noexcept override {
    if (family == AF_INET) cb.OnDnsResolution(Resolution{}, {});
  }
};
// The recorder's thread.
inline int Dispatch(event_base* b) {
  auto& w = fake_event::world();
  Net& n = *net_();
  while (!b->broke) {
    w.now = Net::now();
    Wr(n.consumed, Rd(n.nstarted));
    event* fire = nullptr;
    short what = 0;
    for (auto e : fake_event::pending(b)) {
      if (e->fd < 0) continue;
      Sock* s = n.find(e->fd);
      if (!s || !s->open) continue;
      if ((e->flags & EV_WRITE) && n.Writable(*s)) { fire = e, what = EV_WRITE; break; }
      if ((e->flags & EV_READ) && n.Readable(*s)) { fire = e, what = EV_READ; break; }
    }
    event* t = fake_event::next_timer(b);
    if (fire && mc::deviate(2, "readiness is noticed later")) {
      fire = nullptr;
    }
    if (fire) {
      if (what == EV_WRITE) n.find(fire->fd)->connected = true;
      n.Update();
      fake_event::fire(fire, what);
      n.Update();
      continue;
    }
    if (t && t->deadline <= w.now) {
      fake_event::fire(t, EV_TIMEOUT);
      n.Update();
      continue;
    }
    int64_t until = n.NextChange();
    if (t) until = std::min(until, t->deadline);
    MC_CHECK(until != INT64_MAX, "the event loop has nothing to wait for");
    Wr(n.idle, 1);
    mc::block_until_deadline([](void*) { return false; }, nullptr, until * 1000, "event loop");
    Wr(n.idle, 0);
    n.Update();
  }
  Wr(n.consumed, Rd(n.nstarted));
  return 0;
}
}  // namespace simnet
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new simnet::Resolver{}}; }
}  // namespace lightstep
extern "C" {
int __real_socket(int, int, int);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_fcntl(int, int, ...);
int __real_setsockopt(int, int, int, const void*, socklen_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_writev(int, const iovec*, int);
int __real_close(int);
int __wrap_socket(int family, int type, int proto) {
  auto* n = simnet::net_();
  if (!n) return __real_socket(family, type, proto);
  MC_CHECK(mc::virtual_now() < Rd(n->forbid), "a socket is opened after the connections were shut down");
  if (n->o.setup_faults && mc::deviate(2, "socket")) {
    Add(n->faults, 1);
    errno = EMFILE;
    return -1;
  }
  simnet::Sock s;
  s.fd = simnet::kFirstFd + (int)n->socks.size();
  s.family = family;
  s.generation = n->generation;
  n->socks.push_back(s);
  Add(n->made, 1);
  n->Update();
  mc::log("socket() = %d", s.fd);
  return s.fd;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t len) {
  if (!simnet::ours(fd)) return __real_connect(fd, a, len);
  auto& n = *simnet::net_();
  auto& s = n.use(fd, "connect");
  MC_CHECK(!s.connect_called && s.nonblocking && a->sa_family == s.family, "connect on descriptor %d", fd);
  s.connect_called = true;
  if (n.o.setup_faults && mc::deviate(2, "connect")) {
    Add(n.faults, 1);
    errno = ECONNREFUSED;
    return -1;
  }
  int64_t delay = n.o.connect_delay_even != -2 && (fd - simnet::kFirstFd) % 2 ? n.o.connect_delay_even : n.o.connect_delay;
  if (delay >= 0) s.writable_at = n.now() + delay;
  errno = EINPROGRESS;
  return -1;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!simnet::ours(fd)) return __real_fcntl(fd, cmd, arg);
  auto& s = simnet::net_()->use(fd, "fcntl");
  if (cmd == F_GETFL) return O_RDWR;
  if (cmd == F_SETFL) s.nonblocking = arg & O_NONBLOCK;
  return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t len) {
  if (!simnet::ours(fd)) return __real_setsockopt(fd, level, name, v, len);
  simnet::net_()->use(fd, "setsockopt");
  return 0;
}
ssize_t __wrap_read(int fd, void* p, size_t len) {
  if (!simnet::ours(fd)) return __real_read(fd, p, len);
  mc::NoPreempt np;
  auto& n = *simnet::net_();
  auto& s = n.use(fd, "read");
  if (s.errored) {
    errno = ECONNRESET;
    return -1;
  }
  if (!n.Readable(s)) {
    errno = EAGAIN;
    return -1;
  }
  if (s.responded) {
    s.ended = true;
    return 0;
  }
  s.responded = true;
  static const char r[] = "HTTP/1.1 200 OK\r\n\r\n";
  MC_CHECK(len >= sizeof r, "harness: a read of %zu bytes", len);
  memcpy(p, r, sizeof r - 1);
  return sizeof r - 1;
}
ssize_t __wrap_writev(int fd, const iovec* v, int count) {
  if (!simnet::ours(fd)) return __real_writev(fd, v, count);
  auto& n = *simnet::net_();
  auto& s = n.use(fd, "writev");
  MC_CHECK(s.connected, "write on descriptor %d before it was connected", fd);
  Add(n.writes, 1);
  mc::point("writev");
  mc::NoPreempt np;
  std::string all;
  for (int i = 0; i < count; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  bool room = s.writable_at >= 0 && s.writable_at <= n.now();
  int c = !room ? 1 : all.empty() || !n.o.write_faults ? 0 : mc::deviate(4, "writev");
  if (c) Add(n.faults, 1);
  mc::log("  writev(%d, %zu bytes) %s", fd, all.size(), c == 0 ? "takes all" : c == 1 ? "would block" : c == 2 ? "fails" : "takes half");
  if (c == 1 || c == 2) {
    errno = c == 1 ? EAGAIN : ECONNRESET;
    if (c == 2) s.errored = true;
    if (c == 1 && room) s.writable_at = n.now() + 1200;
    n.Update();
    return -1;
  }
  size_t k = all.size();
  if (c == 3) {
    k -= k / 2;
    auto clear = [&] {
      std::string x = s.wire + all.substr(0, k);
      size_t z = x.find_last_not_of('0');
      return z == std::string::npos || z + 1 == x.size() || x[z] != '\n';
    };
    while (k < all.size() && !clear()) ++k;
    s.writable_at = n.now() + 1200;
  }
  s.wire += all.substr(0, k);
  n.Account("token");
  if (s.terminated && s.reply_at < 0 && n.o.reply_delay >= 0) s.reply_at = n.now() + n.o.reply_delay;
  n.Update();
  return (ssize_t)k;
}
int __wrap_close(int fd) {
  if (!simnet::ours(fd)) return __real_close(fd);
  auto& n = *simnet::net_();
  // (closing what the other side of a fork also holds is fine)
  auto* s = n.find(fd);
  MC_CHECK(s && s->open, "close of descriptor %d, which is not open", fd);
  s->open = false;
  n.Update();
  mc::log("  close(%d)", fd);
  return 0;
}
}

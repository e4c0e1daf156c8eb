// mc: variant=asan wrap=socket,close,fcntl,fcntl64,setsockopt,connect
// C26: sockets, events, event loops and timers under every history of ownership
// operations, with failures of the system calls.
#include <arpa/inet.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include "fake_event.h"
#include "mc.h"
#include "network/event.h"
#include "network/event_base.h"
#include "network/socket.h"
#include "network/timer_event.h"
using namespace lightstep;
namespace {
constexpr int kFirst = 100000;
struct Os {
  std::set<int> open;
  int next = kFirst;
  int opened = 0, closed = 0;
  std::string last;  // last call other than socket/close
  int last_fd = -1;
  int family = 0, type = 0;
  bool nonblocking = false, reuse = false;
  std::string addr;
  int connect_errno = 0;
  bool failed = false;
  bool Fail(const char* what) {
    if (mc::deviate(2, what) == 0) return false;
    failed = true;
    mc::log("%s fails", what);
    return true;
  }
} *os;
bool ours(int fd) { return fd >= kFirst; }
}  // namespace
extern "C" {
int __real_close(int);
int __real_fcntl(int, int, void*);
int __wrap_socket(int family, int type, int) {
  if (os->Fail("socket")) { errno = EMFILE; return -1; }
  os->family = family;
  os->type = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
  os->nonblocking = type & SOCK_NONBLOCK;
  os->reuse = false;
  ++os->opened;
  os->open.insert(os->next);
  return os->next++;
}
int __wrap_close(int fd) {
  if (!os || (!ours(fd) && fd >= 0)) return __real_close(fd);
  MC_CHECK(fd >= 0, "close(%d)", fd);
  MC_CHECK(os->open.erase(fd), "descriptor %d closed twice", fd);
  ++os->closed;
  mc::log("close(%d)", fd);
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!os || !ours(fd)) return __real_fcntl(fd, cmd, arg);
  MC_CHECK(os->open.count(fd), "fcntl on closed descriptor %d", fd);
  if (cmd == F_GETFL) return O_RDWR | (os->nonblocking ? O_NONBLOCK : 0);
  os->last_fd = fd;
  if (os->Fail("fcntl")) { errno = EPERM; return -1; }
  if (cmd == F_SETFL) {
    MC_CHECK(((long)arg & O_RDWR) == O_RDWR, "descriptor flags lost");
    os->nonblocking = (long)arg & O_NONBLOCK;
  }
  return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
  MC_CHECK(os->open.count(fd), "setsockopt on closed descriptor %d", fd);
  os->last_fd = fd;
  if (os->Fail("setsockopt")) { errno = ENOPROTOOPT; return -1; }
  if (level == SOL_SOCKET && name == SO_REUSEADDR && n == sizeof(int)) os->reuse = *(const int*)v;
  return 0;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  MC_CHECK(os->open.count(fd), "connect on closed descriptor %d", fd);
  os->last_fd = fd;
  os->addr.assign((const char*)a, n);
  static const int errs[] = {0, EINPROGRESS, EAGAIN, ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EADDRINUSE, EINTR};
  int e = errs[mc::choose(8, "connect")];
  os->connect_errno = e;
  mc::log("connect(%d) -> errno %d", fd, e);
  if (e) { errno = e; return -1; }
  return 0;
}
}
namespace {
struct OsScope {
  Os o;
  OsScope() { os = &o; }
  ~OsScope() { os = nullptr; }
};
// Histories over two slots of movable T. Derived: Create(slot)->unique_ptr or null on failure, Id(T), Open() count.
template <class Traits>
void Histories(int depth) {
  using T = typename Traits::T;
  Traits tr;
  {
    std::unique_ptr<T> s[2];
    long id[2] = {-1, -1};
    auto check = [&] {
      long owned = 0;
      for (int i = 0; i < 2; ++i) {
        if (s[i]) MC_CHECK(tr.Id(*s[i]) == id[i], "object %d owns %ld, should own %ld", i, tr.Id(*s[i]), id[i]);
        else MC_CHECK(id[i] == -1, "harness");
        if (id[i] != -1) {
          ++owned;
          MC_CHECK(tr.Alive(id[i]), "%ld is owned by object %d and already released", id[i], i);
        }
      }
      MC_CHECK(tr.Open() == owned, "%ld acquired and not released, %ld owned", (long)tr.Open(), owned);
      mc::state(mc::mix(mc::mix((s[0] ? 1 : 0) + (s[1] ? 2 : 0), id[0] == -1), id[1] == -1));
      mc::evaluated();
    };
    for (int step = 0; step < depth; ++step) {
      int i = mc::choose(2, "slot");
      int op = mc::choose(5 + tr.extra(), "op");
      mc::log("step %d: object %d op %d", step, i, op);
      switch (op) {
        case 0: {  // construct
          s[i].reset();
          id[i] = -1;
          check();
          bool threw = false;
          os->failed = false;
          try {
            s[i].reset(tr.Create());
          } catch (const std::runtime_error&) {
            threw = true;
          }
          MC_CHECK(threw == tr.Failed(), "a failure of the system is %s", threw ? "reported although none happened" : "not reported");
          if (!threw) id[i] = tr.Id(*s[i]);
          MC_CHECK(threw || (id[i] != -1), "a constructed object owns nothing");
          break;
        }
        case 1:  // move construct the other from this
          if (!s[i]) break;
          s[1 - i].reset();
          s[1 - i].reset(new T{std::move(*s[i])});
          id[1 - i] = id[i];
          id[i] = -1;
          break;
        case 2:  // move assign
          if (!s[i] || !s[1 - i]) break;
          *s[1 - i] = std::move(*s[i]);
          id[1 - i] = id[i];
          id[i] = -1;
          break;
        case 3:
          s[i].reset();
          id[i] = -1;
          break;
        case 4:  // move out and back through a temporary
          if (!s[i]) break;
          {
            T t{std::move(*s[i])};
            MC_CHECK(tr.Id(*s[i]) == -1 && tr.Id(t) == id[i], "after a move both or neither own");
            *s[i] = std::move(t);
            MC_CHECK(tr.Id(t) == -1, "after a move assignment both own");
          }
          break;
        default:
          if (s[i] && id[i] != -1) tr.Extra(op - 5, *s[i], id[i]);
      }
      check();
    }
  }
  MC_CHECK(tr.Open() == 0, "%ld are never released", (long)tr.Open());
}
struct SocketTraits {
  using T = Socket;
  OsScope scope;
  int extra() { return 3; }
  bool Failed() { return os->failed; }
  long Id(Socket& s) { return s.file_descriptor(); }
  bool Alive(long id) { return os->open.count((int)id); }
  long Open() { return (long)os->open.size(); }
  Socket* Create() {
    switch (mc::choose(3, "how")) {
      case 0: {
        auto* r = new Socket{};
        MC_CHECK(os->family == AF_INET && os->type == SOCK_STREAM, "default socket is %d/%d", os->family, os->type);
        return r;
      }
      case 1: {
        auto* r = new Socket{AF_INET6, SOCK_DGRAM};
        MC_CHECK(os->family == AF_INET6 && os->type == SOCK_DGRAM, "socket of %d/%d", os->family, os->type);
        return r;
      }
      default:
        os->open.insert(os->next);
        return new Socket{os->next++};
    }
  }
  void Extra(int op, Socket& s, long id) {
    os->failed = false;
    os->last_fd = -1;
    bool threw = false;
    try {
      if (op == 0) {
        s.SetNonblocking();
        MC_CHECK(os->nonblocking, "not made non-blocking");
      } else if (op == 1) {
        s.SetReuseAddress();
        MC_CHECK(os->reuse, "address reuse not set");
      } else {
        IpAddress a{"1.2.3.4", 80};
        int r = s.Connect(a.addr(), sizeof(sockaddr_in));
        MC_CHECK((r == 0) == (os->connect_errno == 0), "connect result %d", r);
        MC_CHECK(os->addr.size() == sizeof(sockaddr_in) && !memcmp(os->addr.data(), &a.addr(), sizeof(sockaddr_in)), "address passed to connect");
      }
    } catch (const std::runtime_error&) {
      threw = true;
    }
    MC_CHECK(threw == os->failed, "failure of the system %s", threw ? "invented" : "swallowed");
    MC_CHECK(os->last_fd == id, "operation on descriptor %d, the socket owns %ld", os->last_fd, id);
  }
};
template <class D>
struct FakeTraits {
  OsScope oscope;
  fake_event::Scope scope;
  bool failed = false;
  FakeTraits() {
    scope.w.fail = [this](const char* op) {
      if (mc::deviate(2, op) == 0) return false;
      failed = true;
      mc::log("%s fails", op);
      return true;
    };
  }
  int extra() { return 0; }
  bool Failed() {
    bool f = failed;
    failed = false;
    return f;
  }
};
struct BaseTraits : FakeTraits<BaseTraits> {
  using T = EventBase;
  int extra() { return 3; }
  long Id(EventBase& b) { return b.libevent_handle() ? (long)b.libevent_handle() : -1; }
  bool Alive(long id) { return fake_event::alive((event_base*)id); }
  long Open() { return (long)scope.w.bases.size(); }
  EventBase* Create() { return new EventBase{}; }
  void Extra(int op, EventBase& b, long id) {
    failed = false;
    bool threw = false, ran = false, ok = true;
    static int fired;
    fired = 0;
    scope.w.dispatch = [&](event_base* e) {
      ran = true;
      MC_CHECK((long)e == id, "dispatches another loop");
      if (mc::choose(2, "dispatch")) { ok = false; return -1; }
      return 0;
    };
    try {
      if (op == 0) b.Dispatch();
      else if (op == 1) b.LoopBreak();
      else {
        size_t before = scope.w.events.size();
        b.OnTimeout(std::chrono::milliseconds{1500}, [](FileDescriptor, short, void* p) { ++*(int*)p; }, &fired);
        MC_CHECK(scope.w.events.size() == before + 1, "no timer armed");
        event* e = scope.w.events.back();
        MC_CHECK(e->base == (event_base*)id && e->pending && e->interval == 1500000 && !(e->flags & EV_PERSIST), "timer armed wrongly");
        fake_event::fire(e, EV_TIMEOUT);
        MC_CHECK(fired == 1 && scope.w.events.size() == before, "one-shot timer");
      }
    } catch (const std::runtime_error&) {
      threw = true;
    }
    scope.w.dispatch = nullptr;
    bool f = Failed() || !ok;
    MC_CHECK(threw == f, "failure of the event library %s", threw ? "invented" : "swallowed");
    if (op == 0) MC_CHECK(ran, "not dispatched");
    if (op == 1 && !threw) MC_CHECK(((event_base*)id)->broke, "loop not broken");
  }
};
struct EventTraits : FakeTraits<EventTraits> {
  using T = Event;
  std::unique_ptr<EventBase> base;
  EventTraits() {
    auto f = std::move(scope.w.fail);
    scope.w.fail = nullptr;
    base.reset(new EventBase{});
    scope.w.fail = std::move(f);
  }
  ~EventTraits() {}
  int extra() { return 3; }
  long Id(Event& b) { return b.libevent_handle() ? (long)b.libevent_handle() : -1; }
  bool Alive(long id) { return fake_event::alive((event*)id); }
  long Open() { return (long)scope.w.events.size(); }
  static void Cb(int, short, void* p) { ++*(int*)p; }
  int fired = 0;
  Event* Create() {
    if (mc::choose(2, "how")) return new Event{*base, 7, EV_READ | EV_PERSIST, Cb, &fired};
    auto* e = new Event{*base, -1, 0, Cb, &fired};
    event* h = e->libevent_handle();
    MC_CHECK(h->base == base->libevent_handle() && h->fd == -1 && h->flags == 0 && h->arg == &fired && h->cb == Cb, "event constructed wrongly");
    return e;
  }
  void Extra(int op, Event& e, long id) {
    failed = false;
    bool threw = false;
    event* h = (event*)id;
    bool was = h->pending;
    try {
      if (op == 0) e.Add(std::chrono::microseconds{2500001});
      else if (op == 1) e.Add(nullptr);
      else e.Remove();
    } catch (const std::runtime_error&) {
      threw = true;
    }
    MC_CHECK(threw == Failed(), "failure of the event library %s", threw ? "invented" : "swallowed");
    if (!threw) {
      MC_CHECK(h->pending == (op != 2), "pending after operation %d: %d", op, h->pending);
      if (op == 0) MC_CHECK(h->interval == 2500001, "time-out of %ld us", (long)h->interval);
    } else
      MC_CHECK(h->pending == was, "a failed operation changed the event");
  }
};
struct TimerTraits : FakeTraits<TimerTraits> {
  using T = TimerEvent;
  std::unique_ptr<EventBase> base;
  int fired = 0;
  TimerTraits() {
    auto f = std::move(scope.w.fail);
    scope.w.fail = nullptr;
    base.reset(new EventBase{});
    scope.w.fail = std::move(f);
  }
  static void Cb(int, short, void* p) { ++*(int*)p; }
};
}  // namespace
MC_SCENARIO(sockets, 1, 2) { Histories<SocketTraits>(mc::thorough() ? 5 : 4); }
MC_SCENARIO(bases, 1, 2) { Histories<BaseTraits>(mc::thorough() ? 6 : 5); }
MC_SCENARIO(events, 1, 2) { Histories<EventTraits>(mc::thorough() ? 6 : 5); }
// connecting: every failure point and result, both families
MC_SCENARIO(connect_free_function, 2, 4) {
  OsScope scope;
  int fam = mc::choose(2, "family");
  IpAddress a = fam ? IpAddress{"::1", 443} : IpAddress{"10.0.0.1", 8080};
  bool threw = false;
  int fd = -1;
  try {
    Socket s = Connect(a);
    fd = s.file_descriptor();
    MC_CHECK(os->open.count(fd) && os->open.size() == 1, "the connected socket is not open");
    MC_CHECK(os->family == (fam ? AF_INET6 : AF_INET) && os->type == SOCK_STREAM, "socket of %d/%d", os->family, os->type);
    MC_CHECK(os->nonblocking && os->reuse, "socket not non-blocking or address not reusable");
    size_t n = fam ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
    MC_CHECK(os->addr.size() == n && !memcmp(os->addr.data(), &a.addr(), n), "connected to another address");
    MC_CHECK(!os->failed && (os->connect_errno == 0 || os->connect_errno == EINPROGRESS || os->connect_errno == EAGAIN),
             "a failed connection (errno %d) is returned as a socket", os->connect_errno);
    Socket moved{std::move(s)};
    MC_CHECK(moved.file_descriptor() == fd && os->open.count(fd), "socket lost by a move");
  } catch (const std::runtime_error& e) {
    threw = true;
    if (!os->failed && os->connect_errno == ECONNREFUSED)
      MC_CHECK(strstr(e.what(), strerror(ECONNREFUSED)), "error does not say what failed: %s", e.what());
  }
  if (threw)
    MC_CHECK(os->failed || !(os->connect_errno == 0 || os->connect_errno == EINPROGRESS || os->connect_errno == EAGAIN),
             "a connection with errno %d is refused", os->connect_errno);
  MC_CHECK(os->open.empty() && os->opened == os->closed, "%d sockets opened, %d closed", os->opened, os->closed);
  mc::outcome(threw ? "error" : "socket");
  mc::evaluated();
}
// timers: period, reset, stop, moves, destruction
MC_SCENARIO(timers, 1, 3) {
  TimerTraits tr;
  auto& w = tr.scope.w;
  {
    std::unique_ptr<TimerEvent> t;
    bool armed;
    int64_t period;
    try {
      if (mc::choose(2, "kind")) {
        t.reset(new TimerEvent{*tr.base, std::chrono::milliseconds{250}, TimerTraits::Cb, &tr.fired});
        armed = true;
        period = 250000;
      } else {
        t.reset(new TimerEvent{*tr.base, TimerTraits::Cb, &tr.fired});
        armed = false;
        period = 0;
      }
    } catch (const std::runtime_error&) {
      MC_CHECK(tr.Failed(), "failure invented");
      MC_CHECK(w.events.empty(), "an event is leaked by a failed construction");
      mc::evaluated();
      return;
    }
    MC_CHECK(!tr.Failed(), "failure swallowed");
    MC_CHECK(w.events.size() == 1, "%zu events", w.events.size());
    event* e = w.events[0];
    int64_t due = armed ? w.now + period : -1;
    for (int step = 0, n = mc::thorough() ? 6 : 5; step < n; ++step) {
      bool threw = false;
      int op = mc::choose(6, "op");
      int64_t was_deadline = e->deadline;
      try {
        switch (op) {
          case 0:
            t->Reset();
            break;
          case 1: {
            timeval tv{3, 500000};
            t->Reset(&tv);
            break;
          }
          case 2: t->Reset(nullptr); break;
          case 3: w.now += 100000; break;
          case 4:
            if (e->pending && e->deadline >= 0) {
              if (w.now < e->deadline) w.now = e->deadline;
              int f = tr.fired;
              fake_event::fire(e, EV_TIMEOUT);
              MC_CHECK(tr.fired == f + 1, "callback not called");
            }
            break;
          default: {
            TimerEvent u{std::move(*t)};
            *t = std::move(u);
          }
        }
      } catch (const std::runtime_error&) {
        threw = true;
      }
      bool failed = tr.Failed();
      MC_CHECK(threw == failed, "failure %s", threw ? "invented" : "swallowed");
      MC_CHECK(w.events.size() == 1 && w.events[0] == e, "timer changed its event");
      if (threw) {
        if (op == 0 || op == 1) return;  // the object's period is not specified after a failure
        continue;
      }
      if (op == 0) { if (due < 0 && period == 0) { armed = true; due = w.now; } else { armed = true; due = w.now + period; } }
      if (op == 1) { armed = true; period = 3500000; due = w.now + period; }
      if (op == 2) armed = false;
      if (op == 4 && armed) due = e->deadline;
      MC_CHECK(e->pending == armed, "timer is %s, should be %s", e->pending ? "armed" : "stopped", armed ? "armed" : "stopped");
      if (armed) MC_CHECK(e->interval == period, "period %ld us, should be %ld", (long)e->interval, (long)period);
      if (armed && op != 4) MC_CHECK(e->deadline == due, "due at %ld, should be %ld", (long)e->deadline, (long)due);
      (void)was_deadline;
      mc::state(mc::mix(mc::mix(armed, period), e->deadline - w.now));
      mc::evaluated();
    }
  }
  MC_CHECK(w.events.empty(), "the timer's event is leaked");
}

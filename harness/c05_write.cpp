// mc: variant=asan wrap=writev
// C05: gathered writes against every answer the system may give to every call.
#include <cerrno>
#include <climits>
#include <functional>
#include <stdexcept>
#include <sys/uio.h>
#include "network/vector_write.h"
#include "streams.h"
using namespace lightstep;
namespace {
struct Env {
  std::function<ssize_t(size_t total)> answer;  // >=0 bytes taken, <0 -errno
  std::string sent;
  int calls = 0;
  bool stopped = false;  // a short or failed answer was given in this Write
  bool hard = false;
  int hard_errno = 0;
} *env;
}  // namespace
extern "C" ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
  MC_CHECK(fd == 77, "writev on descriptor %d", fd);
  MC_CHECK(n >= 0 && n <= IOV_MAX, "writev with %d vectors", n);
  MC_CHECK(!env->stopped, "a write follows a short or failed one in the same call");
  std::string all;
  for (int i = 0; i < n; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  ++env->calls;
  ssize_t k = env->answer(all.size());
  if (k < 0) {
    env->stopped = true;
    if (-k != EAGAIN && -k != EWOULDBLOCK) { env->hard = true; env->hard_errno = (int)-k; }
    errno = (int)-k;
    return -1;
  }
  MC_CHECK((size_t)k <= all.size(), "harness");
  if ((size_t)k < all.size()) env->stopped = true;
  env->sent += all.substr(0, k);
  errno = 0;
  return k;
}
namespace {
const int kErrors[] = {EAGAIN, ECONNRESET, EPIPE, EINTR, EINVAL, ENOTCONN, EIO};
// one Write call over `streams` holding `left`, checked; returns its result (2: threw)
int DoWrite(Env& e, std::vector<FragmentInputStream*> ss, std::string& left) {
  e.stopped = e.hard = false;
  e.sent.clear();
  e.calls = 0;
  env = &e;
  int result;
  try {
    bool r = ss.size() == 1 ? Write(77, {ss[0]}) : ss.size() == 2 ? Write(77, {ss[0], ss[1]}) : Write(77, {ss[0], ss[1], ss[2]});
    result = r;
  } catch (const std::runtime_error& x) {
    result = 2;
    MC_CHECK(e.hard, "error raised though the system reported none: %s", x.what());
  }
  MC_CHECK(!(e.hard && result != 2), "system error %d not reported", e.hard_errno);
  MC_CHECK(left.compare(0, e.sent.size(), e.sent) == 0, "bytes on the wire are not the next bytes of the streams");
  left.erase(0, e.sent.size());
  std::string now;
  for (auto* s : ss) {
    now += Content(*s);
    MC_CHECK(s->num_fragments() == (int)Fragments(*s).size(), "num_fragments after a write");
  }
  MC_CHECK(now == left, "streams hold %zu bytes, %zu were not sent (sent %zu)", now.size(), left.size(), e.sent.size());
  if (result != 2) MC_CHECK((result == 1) == left.empty(), "write returned %d with %zu bytes left", result, left.size());
  if (result == 1)
    for (auto* s : ss) MC_CHECK(s->empty(), "complete, yet a stream is not empty");
  if (!e.hard && !e.stopped) MC_CHECK(left.empty(), "gave up with %zu bytes left although the socket accepted everything", left.size());
  mc::evaluated();
  return result;
}
void Assign(FragmentArrayInputStream& s, std::vector<std::string>& f) {
  auto fr = [&](int i) { return Fragment{(void*)f[i].data(), (int)f[i].size()}; };
  switch (f.size()) {
    case 0: s = std::initializer_list<Fragment>{}; break;
    case 1: s = {fr(0)}; break;
    case 2: s = {fr(0), fr(1)}; break;
    case 3: s = {fr(0), fr(1), fr(2)}; break;
    default: mc::internal_error("layout");
  }
}
}  // namespace
// all small layouts, every answer to every call, three calls
MC_SCENARIO(small, 0, 0) {
  std::vector<std::string> f[3];
  FragmentArrayInputStream s[3];
  std::vector<FragmentInputStream*> ss;
  std::string left;
  int ns = 1 + mc::choose(3, "streams");
  for (int i = 0; i < ns; ++i) {
    int n = mc::choose(i == 0 ? 4 : 3, "fragments");
    for (int k = 0; k < n; ++k) f[i].push_back(Pattern(mc::choose(3, "len"), i * 10 + k));
    Assign(s[i], f[i]);
    ss.push_back(&s[i]);
    left += Join(f[i]);
  }
  Env e;
  e.answer = [&](size_t total) -> ssize_t {
    if (total == 0) return 0;
    int c = mc::choose((int)total + 2, "writev");
    if (c == 0) return (ssize_t)total;
    if (c == (int)total + 1) return -kErrors[mc::choose(mc::thorough() ? 7 : 2, "errno")];
    return c - 1;  // 0 .. total-1
  };
  for (int round = 0; round < (mc::thorough() ? 3 : 2); ++round) {
    int r = DoWrite(e, ss, left);
    mc::log("sent %zu -> %d, %zu left", e.sent.size(), r, left.size());
    mc::state(mc::mix(mc::hash(left), r));
  }
}
// fragment counts around multiples of the vector limit; answers at every call: full, errors, short at boundaries
MC_SCENARIO(batches, 0, 0) {
  static const int counts[] = {IOV_MAX - 1, IOV_MAX, IOV_MAX + 1, 2 * IOV_MAX - 1, 2 * IOV_MAX, 2 * IOV_MAX + 1, 3 * IOV_MAX, 3 * IOV_MAX + 5, 5000};
  int n = counts[mc::choose(9, "count")];
  int split = mc::choose(4, "split");
  std::vector<std::string> a, b;
  int na = split == 0 ? 0 : split == 1 ? 1 : split == 2 ? n / 2 : n - 1;
  for (int i = 0; i < n; ++i) (i < na ? a : b).push_back(Pattern(i % 3 == 1 ? 2 : 1, i));
  Leaf sa{a}, sb{b};
  std::string left = Join(a) + Join(b);
  Env e;
  e.answer = [&](size_t total) -> ssize_t {
    if (total == 0) return 0;
    int c = mc::choose(8, "writev");
    switch (c) {
      case 0: return (ssize_t)total;
      case 1: return -EAGAIN;
      case 2: return -ECONNRESET;
      case 3: return (ssize_t)total - 1;
      case 4: return 1;
      case 5: return 0;
      case 6: return (ssize_t)total / 2;
      default: return (ssize_t)total - 2 > 0 ? (ssize_t)total - 2 : 0;
    }
  };
  for (int round = 0; round < 2; ++round) {
    int r = DoWrite(e, {&sa, &sb}, left);
    mc::state(mc::mix(mc::mix(n, split), mc::mix(left.size(), r)));
    mc::outcome(std::to_string(r) + "/" + std::to_string(e.calls));
    if (r == 2) break;
  }
}
// block-chained streams as senders write them, cut everywhere
MC_SCENARIO(blocks, 0, 0) {
  static const int sizes[] = {0, 1, 255, 256, 257, 600};
  std::string a = Pattern(sizes[mc::choose(6, "a")], 1), b = Pattern(sizes[mc::choose(6, "b")], 2);
  std::string h = "head", h2 = "\r\n";
  FragmentArrayInputStream s{Fragment{&h[0], 4}, Fragment{&h2[0], 2}};
  auto ca = MakeChained(a), cb = MakeChained(b);
  std::string left = h + h2 + a + b;
  Env e;
  bool first = true;
  e.answer = [&](size_t total) -> ssize_t {
    if (total == 0) return 0;
    if (!first) {
      int c = mc::choose(3, "then");
      return c == 0 ? (ssize_t)total : c == 1 ? -EPIPE : (ssize_t)total / 2;
    }
    first = false;
    return mc::choose((int)total + 1, "cut");
  };
  DoWrite(e, {&s, ca.get(), cb.get()}, left);
  int r = DoWrite(e, {&s, ca.get(), cb.get()}, left);
  mc::state(mc::mix(mc::hash(left), r));
}

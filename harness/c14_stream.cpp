// mc: variant=mct skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp wrap=socket,connect,fcntl,setsockopt,read,writev,close,pthread_atfork
// C14: forks in every state of a streaming recorder. The handlers the library
// registers are run as fork() would run them; the process carries on as the
// parent or as the child.
#include "recorder_world.h"
namespace {
struct Handler {
  void (*prepare)();
  void (*parent)();
  void (*child)();
};
Handler handlers[8];
int num_handlers = 0;
// as POSIX has it
ORACLE void Prepare() {
  for (int i = num_handlers; i--;)
    if (handlers[i].prepare) handlers[i].prepare();
}
ORACLE void After(bool child) {
  for (int i = 0; i < num_handlers; ++i)
    if (auto f = child ? handlers[i].child : handlers[i].parent) f();
}
}  // namespace
// (every thread that uses random numbers registers the same handler)
extern "C" ORACLE int __wrap_pthread_atfork(void (*prepare)(), void (*parent)(), void (*child)()) {
  for (int i = 0; i < num_handlers; ++i)
    if (handlers[i].prepare == prepare && handlers[i].parent == parent && handlers[i].child == child) return 0;
  MC_CHECK(num_handlers < 8, "more and more handlers of fork are registered");
  handlers[num_handlers++] = {prepare, parent, child};
  return 0;
}
namespace {
int announced_before, dropped_before;
void Pass(int64_t us) {
  mc::block_until_deadline([](void*) { return false; }, nullptr, mc::virtual_now() + us * 1000, "time passes");
}
// No stream is open: every drop has been announced or is still to be.
void CheckAnnounced() {
  int pending = w->rec->metrics().num_dropped_spans();
  int announced = Rd(w->n.announced) - announced_before, dropped = Rd(w->dropped) - dropped_before;
  MC_CHECK(announced + pending == dropped, "%d drops, of which %d were announced and %d are to be", dropped, announced, pending);
}
void Fork(bool child) {
  mc::log(child ? "fork, going on as the child" : "fork, going on as the parent");
  bool connected = Connected() && Rd(w->n.idle) && !Rd(w->closing);
  int d0 = mc::deviations();
  Prepare();
  MC_CHECK(mc::live_threads() == 0, "a thread is running during the fork");
  MC_CHECK(Rd(w->n.open_count) == 0, "%d connections are open during the fork", Rd(w->n.open_count));
  MC_CHECK(w->events.w.bases.empty(), "an event loop is shared over the fork");
  ++w->n.generation;
  CheckCounts();
  CheckAnnounced();
  int waiting = w->Waiting();
  if (connected && mc::deviations() == d0) MC_CHECK(!waiting, "%d spans were not sent before the fork though a connection could take them", waiting);
  Wr(w->n.forbid, INT64_MAX);
  if (child) {
    Wr(w->closing, 0);
    for (auto& s : w->slots)
      if (Rd(s.state) && !Rd(s.dropped) && !Rd(w->n.started[&s - w->slots])) Wr(s.cleared, 1);
    announced_before = Rd(w->n.announced);
    dropped_before = Rd(w->dropped);
    Wr(w->n.consumed, Rd(w->n.nstarted));
    After(true);
    MC_CHECK(w->rec->empty(), "the child starts with spans of the parent");
    MC_CHECK(w->rec->FlushWithTimeout(Us(kPoll / 2)), "the child waits for spans of the parent");
  } else {
    After(false);
    MC_CHECK((int)w->rec->span_buffer().size() == waiting || mc::live_threads() > 0, "%zu of %d spans are in the parent's buffer after the fork", w->rec->span_buffer().size(), waiting);
  }
  MC_CHECK(mc::live_threads() == 1, "the recorder has %d threads after the fork", mc::live_threads());
}
void Settle() {
  for (auto& s : w->slots)
    if (Rd(s.cleared)) MC_CHECK(!Rd(w->n.started[&s - w->slots]), "the child sends a span the parent recorded");
}
}  // namespace

namespace {
void Histories(int conns, int steps) {
  World world{1 + mc::choose(2, "capacity")};
  world.conns = conns;
  announced_before = dropped_before = 0;
  const int64_t connect[] = {0, 1500, -1}, reply[] = {0, -1};
  static const int pairs[][2] = {{0, 2}, {1, 0}, {0, 0}};
  int c = mc::choose(3, "connecting");
  world.n.o.connect_delay = connect[conns > 1 ? pairs[c][0] : c];
  if (conns > 1) world.n.o.connect_delay_even = connect[pairs[c][1]];
  world.n.o.reply_delay = reply[mc::choose(2, "answer")];
  Start();
  int forks = 0;
  for (int i = 0; i < steps; ++i) {
    // the last step is a fork if there was none
    int op = i == steps - 1 && !forks ? mc::choose(2, "operation") : mc::choose(7, "operation");
    if (op < 2) { ++forks; Fork(op == 1); }
    if (op == 2) Record(world.next++);
    if (op == 3) Flush(2500);
    if (op == 4) Flush(0);
    if (op == 5) Pass(1500);
    if (op == 6) Shutdown(6000);
    Settle();
  }
  // it still works
  int id = world.next++;
  int d = mc::deviations();
  bool ready = Connected() && Rd(world.n.idle) && !Rd(world.closing) && !world.Waiting();
  Record(id);
  if (ready) {
    Flush(2500);
    if (mc::deviations() == d) MC_CHECK(Rd(world.n.complete[id]), "a span recorded after the fork is not sent");
  }
  Settle();
  Finish();
  Settle();
}
}  // namespace
MC_THREADS(histories, 1, 2) { Histories(1, mc::thorough() ? 5 : 4); }
MC_THREADS(two_connections, 1, 1) { Histories(2, mc::thorough() ? 4 : 3); }

// mc: variant=mct skip=src/network/ares_dns_resolver/ares_dns_resolver.cpp wrap=socket,connect,fcntl,setsockopt,read,writev,close
// C13: the streaming recorder: threads that record, flush and shut down against
// its own thread, every schedule, time-out and fault of the network.
#include "recorder_world.h"
#ifdef ACCOUNT_ONLY
#define LESS(bound) (bound) - 1
#else
#define LESS(bound) bound
#endif
namespace {
int64_t t0, t1;
void PickNet(int connecting, int answers = 0) {
  const int64_t connect[] = {0, 1500, -1}, reply[] = {0, -1, 1500};
  w->n.o.connect_delay = connect[mc::choose(connecting, "connecting")];
  if (answers) w->n.o.reply_delay = reply[mc::choose(answers, "answer")];
}
void Pass(int64_t us) {
  mc::block_until_deadline([](void*) { return false; }, nullptr, mc::virtual_now() + us * 1000, "time passes");
}
}  // namespace

MC_THREADS(flushers, LESS(2), LESS(3)) {
  World world{1 + mc::choose(2, "capacity")};
  PickNet(2);
  t0 = mc::choose(2, "time-out") ? 2500 : 0;
  t1 = mc::choose(2, "time-out") ? 2500 : 500;
  Start();
  std::thread a([] { Record(0, 0); Flush(t0); Record(2, 0); }), b([] { Record(1, 1); Flush(t1); });
  a.join();
  b.join();
  Finish();
}
// Recording threads fill the buffer while the recorder's thread empties it.
MC_THREADS(recorders, LESS(2), LESS(3)) {
  World world{1 + mc::choose(3, "capacity")};
  PickNet(3);
  world.n.o.write_faults = false;
  world.reporting = 1500;
  Start();
  std::thread a([] { Record(0, 0); Record(2, 0); Record(4, 0); }), b([] { Record(1, 1); Pass(1000); Record(3, 1); });
  a.join();
  b.join();
  Finish();
}
// Closing while spans are recorded and flushed.
MC_THREADS(closers, LESS(2), LESS(3)) {
  World world{2};
  PickNet(3, 2);
  t0 = mc::choose(2, "time-out") ? 6000 : 1500;
  world.n.o.write_faults = false;
  Start();
  std::thread a([] { Record(0, 0); Flush(1500); Record(2, 0); }), b([] { Shutdown(t0); });
  a.join();
  b.join();
  if (mc::choose(2, "again")) Shutdown(6000);
  Finish();
}
// Several connections, which are not ready at the same time.
MC_THREADS(connections, LESS(1), LESS(2)) {
  World world{2};
  world.conns = 2;
  const int64_t first[] = {0, 0, 1500, -1}, second[] = {0, -1, 0, -1}, reply[] = {0, -1, 1500};
  int k = mc::choose(4, "connecting");
  world.n.o.connect_delay = first[k], world.n.o.connect_delay_even = second[k];
  world.n.o.reply_delay = reply[mc::choose(3, "answer")];
  int steps = mc::thorough() ? 5 : 4;
  Start();
  bool closing = false;
  for (int i = 0; i < steps; ++i) {
    int op = mc::choose(closing ? 3 : 4, "operation");
    if (op == 0) Record(world.next++);
    if (op == 1) Flush(2500);
    if (op == 2) Pass(1500);
    if (op == 3) {
      Shutdown(mc::choose(2, "time-out") ? 6000 : 1500);
      closing = true;
    }
  }
  Finish();
}
// One thread only: what happens when is determined.
MC_THREADS(histories, LESS(1), LESS(2)) {
  World world{2 + 2 * mc::choose(2, "capacity")};
  PickNet(3, 3);
  world.n.o.setup_faults = true;
  world.reporting = 4000;
  Start();
  int steps = mc::thorough() ? 5 : 4;
  bool closing = false;
  for (int i = 0; i < steps; ++i) {
    int op = mc::choose(closing ? 4 : 6, "operation");
    int d = mc::deviations();
    if (op == 0) Record(world.next++);
    if (op == 1) Flush(2500);
    if (op == 2) Flush(0);
    if (op == 3) {
      int before = world.next;
      bool connected = Connected() && Rd(world.n.idle);
      int waiting = world.Waiting();
      Pass(1500);
      // more than half of the buffer is in use: sent at the next poll
      if (connected && !closing && waiting > world.cap / 2 && mc::deviations() == d)
        for (int k = 0; k < before; ++k)
          LIVE_CHECK(Rd(world.slots[k].dropped) || Rd(world.n.started[k]), "span %d is not sent though the buffer is filled past its mark", k);
    }
    if (op == 4) {
      int before = world.next;
      bool connected = Connected() && Rd(world.n.idle);
      Pass(4500);
      if (connected && mc::deviations() == d)
        for (int k = 0; k < before; ++k)
          LIVE_CHECK(Rd(world.slots[k].dropped) || Rd(world.n.started[k]), "span %d is not sent after the reporting period", k);
    }
    if (op == 5) {
      Shutdown(mc::choose(2, "time-out") ? 6000 : 1500);
      closing = true;
    }
  }
  Finish();
}

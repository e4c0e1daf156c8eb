// A stand-in for libevent with virtual time: the harness decides which event
// fires next. Included by exactly one file of a harness.
#pragma once
#include <event2/event.h>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "mc.h"

struct event {
  event_base* base;
  int fd;
  short flags;
  event_callback_fn cb;
  void* arg;
  bool pending = false;
  int64_t interval = -1;  // us, of the last add with a time-out
  int64_t deadline = -1;
  int id = 0;
  bool once = false;
};
struct event_base {
  bool broke = false;
  int id = 0;
  std::vector<event*> events;
};
namespace fake_event {
struct World {
  int64_t now = 0;  // us
  std::vector<event_base*> bases;
  std::vector<event*> events;
  std::vector<event_base*> dead_bases;
  int next_id = 0;
  // asked for every operation that may fail
  std::function<bool(const char*)> fail;
  // what event_base_dispatch does
  std::function<int(event_base*)> dispatch;
};
inline World*& world_() {
  static World* w = nullptr;
  return w;
}
inline World& world() { return *world_(); }
inline bool fails(const char* op) { return world().fail && world().fail(op); }
inline bool alive(const event* e) {
  for (auto x : world().events)
    if (x == e) return true;
  return false;
}
inline bool alive(const event_base* b) {
  for (auto x : world().bases)
    if (x == b) return true;
  return false;
}
inline void check(const event* e, const char* op) {
  MC_CHECK(e && alive(e), "%s on an event that does not exist (any more)", op);
  MC_CHECK(alive(e->base), "%s on an event whose event loop is gone", op);
}
inline bool is_timer(const event* e) { return e->fd < 0; }
// the events that may fire: timers due first
inline std::vector<event*> pending(event_base* b) {
  std::vector<event*> r;
  for (auto e : b->events)
    if (e->pending) r.push_back(e);
  return r;
}
inline event* next_timer(event_base* b) {
  event* r = nullptr;
  for (auto e : b->events)
    if (e->pending && e->deadline >= 0 && (!r || e->deadline < r->deadline)) r = e;
  return r;
}
void destroy(event* e);
// runs the callback as libevent would
inline void fire(event* e, short what) {
  if (e->flags & EV_PERSIST) {
    if (e->deadline >= 0) e->deadline = (what & EV_TIMEOUT ? (e->deadline + e->interval > world().now ? e->deadline : world().now) : world().now) + e->interval;
  } else {
    e->pending = false;
    e->deadline = -1;
  }
  auto cb = e->cb;
  auto arg = e->arg;
  int fd = e->fd;
  if (e->once) destroy(e);
  cb(fd, what, arg);
}
inline void destroy(event* e) {
  auto rm = [e](std::vector<event*>& v) {
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] == e) { v.erase(v.begin() + i); return; }
  };
  if (alive(e->base)) rm(e->base->events);
  rm(world().events);
  delete e;
}
inline std::string summary() {
  return std::to_string(world().bases.size()) + " event loops, " + std::to_string(world().events.size()) + " events";
}
// a fresh world for one execution; frees what the last one leaked
struct Scope {
  World w;
  Scope() {
    world_() = &w;
  }
  ~Scope() {
    while (!w.events.empty()) destroy(w.events.back());
    for (auto b : w.bases) delete b;
    world_() = nullptr;
  }
};
}  // namespace fake_event
extern "C" {
event_base* event_base_new() {
  using namespace fake_event;
  if (fails("event_base_new")) return nullptr;
  auto b = new event_base;
  b->id = world().next_id++;
  world().bases.push_back(b);
  return b;
}
void event_base_free(event_base* b) {
  using namespace fake_event;
  MC_CHECK(b && alive(b), "event_base_free of an event loop that does not exist (any more)");
  for (size_t i = b->events.size(); i--;)
    if (b->events[i]->once) destroy(b->events[i]);
    else b->events[i]->pending = false;
  for (size_t i = 0; i < world().bases.size(); ++i)
    if (world().bases[i] == b) world().bases.erase(world().bases.begin() + i);
  delete b;
}
int event_base_dispatch(event_base* b) {
  using namespace fake_event;
  MC_CHECK(alive(b), "event_base_dispatch on an event loop that does not exist");
  b->broke = false;
  return world().dispatch ? world().dispatch(b) : 0;
}
int event_base_loopbreak(event_base* b) {
  using namespace fake_event;
  MC_CHECK(alive(b), "event_base_loopbreak on an event loop that does not exist");
  if (fails("event_base_loopbreak")) return -1;
  b->broke = true;
  return 0;
}
event* event_new(event_base* b, int fd, short flags, event_callback_fn cb, void* arg) {
  using namespace fake_event;
  MC_CHECK(alive(b), "event_new on an event loop that does not exist");
  if (fails("event_new")) return nullptr;
  auto e = new event{b, fd, flags, cb, arg};
  e->id = world().next_id++;
  world().events.push_back(e);
  b->events.push_back(e);
  return e;
}
int event_add(event* e, const timeval* tv) {
  using namespace fake_event;
  check(e, "event_add");
  if (tv) MC_CHECK(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "time-out of %lds %ldus", (long)tv->tv_sec, (long)tv->tv_usec);
  if (fails("event_add")) return -1;
  e->pending = true;
  if (tv) {
    e->interval = tv->tv_sec * 1000000ll + tv->tv_usec;
    e->deadline = world().now + e->interval;
  }
  return 0;
}
int event_del(event* e) {
  using namespace fake_event;
  check(e, "event_del");
  if (fails("event_del")) return -1;
  e->pending = false;
  e->deadline = -1;
  return 0;
}
void event_free(event* e) {
  using namespace fake_event;
  check(e, "event_free");
  destroy(e);
}
int event_base_once(event_base* b, int fd, short flags, event_callback_fn cb, void* arg, const timeval* tv) {
  using namespace fake_event;
  MC_CHECK(alive(b), "event_base_once on an event loop that does not exist");
  if (fails("event_base_once")) return -1;
  auto e = event_new(b, fd, flags, cb, arg);
  if (!e) return -1;
  e->once = true;
  e->pending = true;
  if (tv) {
    MC_CHECK(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "time-out of %lds %ldus", (long)tv->tv_sec, (long)tv->tv_usec);
    e->interval = tv->tv_sec * 1000000ll + tv->tv_usec;
    e->deadline = world().now + e->interval;
  }
  return 0;
}
}

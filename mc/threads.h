// Harness-side interface of the controlled scheduler.
#pragma once
#include <cstdint>
namespace mc {
// Spurious condition-variable wakeups as explorable deviations.
void enable_spurious_wakeups();
// Virtual time in ns; advance it explicitly.
int64_t virtual_now();
void advance_time(int64_t ns);
// A scheduling point of the harness's own (e.g. inside a fake system call).
void point(const char* what);
// Blocks the calling model thread until pred() is true (evaluated by the
// scheduler; must only read state written by model threads).
void block_until(bool (*pred)(void*), void* arg, const char* what);
// As block_until, with a virtual-time deadline. Returns false on timeout.
bool block_until_deadline(bool (*pred)(void*), void* arg, int64_t deadline_ns, const char* what);
// True while run under the scheduler.
bool in_execution();
int thread_index();
// A point in a thread's execution: what the thread has published so far.
struct Stamp {
  int thread;
  uint64_t clock;
};
Stamp stamp();
// Whether the calling thread is certain to see what was published by then
// (happens-before).
bool ordered(const Stamp& s);
int live_threads();  // threads created and not yet finished, main excluded
// Happens-before edges for fakes (e.g. a pipe).
void hb_release(const void* obj);
void hb_acquire(const void* obj);
// No scheduling points while held (for oracle code run inside an execution).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};
}  // namespace mc

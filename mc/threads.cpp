// Controlled scheduler for C++ code compiled with -fsanitize=thread: this file
// implements the __tsan_* entry points itself. Every atomic operation, mutex,
// condition variable, thread and clock operation is a scheduling point or is
// virtualised; plain accesses feed a vector-clock race detector; atomic loads
// may return any value the C++ memory model lets them see (bounded history).
#include "threads.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <vector>

#include "mc.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
constexpr int MAXT = 7;
constexpr size_t kStack = 1 << 19;
constexpr int kHist = 5;

struct VC {
  uint32_t c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum Kind { RUN, LOCK, CONDWAIT, JOIN, SLEEP, PRED, WAITALL, NEWTHREAD };
const char* kind_name[] = {"run", "lock", "cond-wait", "join", "sleep", "blocked", "wait-all", "start"};

struct Mutex;
struct Thread {
  int id;
  bool created = false, finished = false, detached = false, joined = false;
  Kind kind = RUN;
  const void* obj = nullptr;
  Mutex* mutex = nullptr;      // LOCK, CONDWAIT
  bool signaled = false;       // CONDWAIT
  bool timed = false;          // CONDWAIT, PRED, SLEEP
  int64_t deadline = 0;
  int wake = 0;                // 0 normal 1 timeout 2 spurious
  bool (*pred)(void*) = nullptr;
  void* pred_arg = nullptr;
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence = false;
  // spin detection
  uint64_t window_effects = 0;
  struct Seen { const void* a; uint64_t v; int n; } seen[8];
  int nseen = 0;
  bool want_yield = false;
  uint64_t last_run = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  pthread_t real;
  struct Dtor { void (*f)(void*); void* o; };
  std::vector<Dtor> dtors;  // of its thread_local objects
  const char* what = "";
};

struct Mutex {
  const void* addr;
  int owner;  // -1 free
  int depth;
  VC vc;
  Mutex* next;
};
struct Store {
  uint64_t value;
  int tid;       // -1: initial
  uint32_t clk;  // epoch of the store
  bool has_rel;
  VC rel;
};
struct Loc {
  const void* addr;
  uint32_t epoch;
  int size;
  int n;           // stores in h
  uint32_t base;   // modification-order index of h[0]
  Store h[kHist];
  uint32_t floor[MAXT];
  uint32_t sc_floor;
  Loc* next;
};
struct Acc {
  uint32_t clk;
  uint8_t mask;
  uint8_t atomic;
  void* pc;
};
struct Cell {
  uint64_t key;
  uint32_t epoch;
  uint8_t freed;
  void* freed_pc;
  Acc w[MAXT], r[MAXT];
};

constexpr size_t kCells = 1 << 15;
Cell* cells;
uint32_t exec_epoch = 0;
size_t cells_used = 0;

Thread* threads[MAXT];
int nthreads = 0;
bool active = false;
__thread Thread* cur = nullptr;
__thread int in_rt = 0;
int no_preempt = 0;
int64_t vnow;
uint64_t effects, sched_seq, idle_yields;
bool spurious = false;
uint8_t* stack_pool = nullptr;
// One operating-system thread per model thread index, used again by every
// execution (creating threads anew exhausts kernel memory); its thread_local
// variables are set back to their initial state for each model thread.
struct Os {
  pthread_t real;
  bool live = false;
  pid_t pid = 0;
};
Os os_threads[MAXT];
std::atomic<int> gos[MAXT];

struct Guard {
  Guard() { ++in_rt; }
  ~Guard() { --in_rt; }
};

constexpr int kBuckets = 1024;
Mutex* mutexes[kBuckets];
Loc* locs[kBuckets];
struct Sync { const void* addr; VC vc; };
std::vector<Sync>* syncs;
std::vector<Mutex*>* mutex_pool;
size_t mutex_used;
std::vector<Loc*>* loc_pool;
size_t loc_used;
std::vector<void*>* quarantine;
std::atomic_flag q_lock = ATOMIC_FLAG_INIT;

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}

size_t bucket(const void* a) { return ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 54; }

Mutex* get_mutex(const void* a) {
  for (Mutex* m = mutexes[bucket(a)]; m; m = m->next)
    if (m->addr == a) return m;
  if (mutex_used == mutex_pool->size()) mutex_pool->push_back((Mutex*)__libc_malloc(sizeof(Mutex)));
  Mutex* m = (*mutex_pool)[mutex_used++];
  m->addr = a;
  m->owner = -1;
  m->depth = 0;
  m->vc.clear();
  m->next = mutexes[bucket(a)];
  mutexes[bucket(a)] = m;
  return m;
}
VC& sync_of(const void* a) {
  for (auto& s : *syncs)
    if (s.addr == a) return s.vc;
  syncs->push_back(Sync{a, {}});
  return syncs->back().vc;
}

void futex_wait(std::atomic<int>* f) {
  while (f->load(std::memory_order_acquire) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  f->store(0, std::memory_order_relaxed);
}
void futex_go(std::atomic<int>* f) {
  f->store(1, std::memory_order_release);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

std::string describe() {
  std::string s;
  for (int i = 0; i < nthreads; ++i) {
    Thread* t = threads[i];
    s += "T" + std::to_string(i) + ":" + (t->finished ? "finished" : kind_name[t->kind]);
    if (!t->finished && t->what[0]) s += std::string("(") + t->what + ")";
    if (!t->finished && t->kind == LOCK && t->mutex)
      s += "(held by T" + std::to_string(t->mutex->owner) + ")";
    s += " ";
  }
  return s;
}

bool ready(Thread* t) {
  switch (t->kind) {
    case RUN:
    case NEWTHREAD: return true;
    case LOCK: return t->mutex->owner == -1;
    case CONDWAIT: return t->signaled && t->mutex->owner == -1;
    case JOIN: return ((Thread*)t->obj)->finished;
    case SLEEP: return vnow >= t->deadline;
    case PRED: return t->pred(t->pred_arg);
    case WAITALL:
      for (int i = 1; i < nthreads; ++i)
        if (!threads[i]->finished) return false;
      return true;
  }
  return false;
}
bool can_time_out(Thread* t) {
  if (t->kind == SLEEP) return true;
  if (!t->timed) return false;
  if (t->kind == CONDWAIT) return !t->signaled && t->mutex->owner == -1;
  return t->kind == PRED;
}

struct Alt {
  Thread* t;
  int wake;
};

// Chooses who runs next. `me` may be finished or blocked.
Thread* pick(Thread* me) {
  Alt alts[16];
  int costs[16];
  int n = 0;
  bool me_ready = me && !me->finished && ready(me);
  bool yield = me_ready && me->want_yield;
  if (me) me->want_yield = false;
  if (no_preempt && me_ready) {
    me->wake = 0;
    return me;
  }
  Thread* others[MAXT];
  int no = 0;
  for (int i = 0; i < nthreads; ++i) {
    Thread* t = threads[i];
    if (t != me && t->created && !t->finished && ready(t)) others[no++] = t;
  }
  // timeouts, earliest deadline first
  Thread* touts[MAXT];
  int nt = 0;
  for (int i = 0; i < nthreads; ++i) {
    Thread* t = threads[i];
    if (t->created && !t->finished && !ready(t) && can_time_out(t)) touts[nt++] = t;
  }
  std::stable_sort(touts, touts + nt, [](Thread* a, Thread* b) { return a->deadline < b->deadline; });
  if (me_ready && !yield) {
    alts[n] = {me, 0};
    costs[n++] = 0;
    for (int i = 0; i < no; ++i) alts[n] = {others[i], 0}, costs[n++] = 1;
    for (int i = 0; i < nt; ++i) alts[n] = {touts[i], 1}, costs[n++] = 1;
  } else if (yield) {
    ++idle_yields;
    if (idle_yields > 3000) mc::fail("livelock: threads spin forever without progress: %s", describe().c_str());
    // least recently run first: a fair default
    std::stable_sort(others, others + no, [](Thread* a, Thread* b) { return a->last_run < b->last_run; });
    for (int i = 0; i < no; ++i) alts[n] = {others[i], 0}, costs[n] = n ? 1 : 0, ++n;
    // (what looks like a spinning thread may be one that reads a lot: time-outs
    // are tried after a while)
    bool first = !n && idle_yields < 6;
    if (first) alts[n] = {me, 0}, costs[n++] = 0;
    if (!n || first)
      for (int i = 0; i < nt; ++i) alts[n] = {touts[i], 1}, costs[n] = n ? 1 : 0, ++n;
    if (!first) alts[n] = {me, 0}, costs[n] = n ? 1 : 0, ++n;
  } else {
    for (int i = 0; i < no; ++i) alts[n] = {others[i], 0}, costs[n++] = 0;
    for (int i = 0; i < nt; ++i) alts[n] = {touts[i], 1}, costs[n] = n ? 1 : 0, ++n;
  }
  if (spurious)
    for (int i = 0; i < nthreads && n < 16; ++i) {
      Thread* t = threads[i];
      if (t->created && !t->finished && t->kind == CONDWAIT && !t->signaled && t->mutex->owner == -1 && n)
        alts[n] = {t, 2}, costs[n++] = 1;
    }
  if (!n) {
    bool all = true;
    for (int i = 0; i < nthreads; ++i)
      if (!threads[i]->finished) all = false;
    if (all) return nullptr;
    mc::fail("deadlock: no thread can run: %s", describe().c_str());
  }
  int c = n == 1 ? 0 : mc::choose_costs(n, costs, "schedule");
  Thread* t = alts[c].t;
  t->wake = alts[c].wake;
  if (t->wake == 1 && t->deadline > vnow) vnow = t->deadline;
  if (t->wake == 1) ++effects;
  if (t != me && mc::logging()) mc::log("    -> T%d%s", t->id, t->wake == 1 ? " (timeout)" : t->wake == 2 ? " (spurious)" : "");
  return t;
}

void switch_to(Thread* me, Thread* next) {
  if (next == me) return;
  next->last_run = ++sched_seq;
  futex_go(&gos[next->id]);
  if (me && !me->finished) {
    futex_wait(&gos[me->id]);
  }
}

// The running thread declares what it is about to do (kind etc. already set)
// and the scheduler picks.
void sched() {
  Thread* me = cur;
  Thread* next = pick(me);
  switch_to(me, next);
  me->kind = RUN;
  me->what = "";
}
void point_(const char* what) {
  if (no_preempt) return;
  cur->kind = RUN;
  cur->what = what;
  if (nthreads > 1) sched();
}
bool on() { return active && cur && !in_rt; }
void tick(Thread* t) { t->vc.c[t->id]++; }
void effect() {
  ++effects;
  idle_yields = 0;
}

// ---- race detection ------------------------------------------------------
Cell* cell_of(uint64_t key) {
  size_t i = (key * 0x9E3779B97F4A7C15ull) >> 49;
  for (size_t k = 0; k < kCells; ++k, i = (i + 1) & (kCells - 1)) {
    Cell& c = cells[i];
    if (c.epoch != exec_epoch) {
      if (cells_used > kCells * 3 / 4) return nullptr;  // table full: stop tracking new locations
      ++cells_used;
      memset(&c, 0, sizeof c);
      c.epoch = exec_epoch;
      c.key = key;
      return &c;
    }
    if (c.key == key) return &c;
  }
  return nullptr;
}
Cell* find_cell(uint64_t key) {
  size_t i = (key * 0x9E3779B97F4A7C15ull) >> 49;
  for (size_t k = 0; k < kCells; ++k, i = (i + 1) & (kCells - 1)) {
    Cell& c = cells[i];
    if (c.epoch != exec_epoch) return nullptr;
    if (c.key == key) return &c;
  }
  return nullptr;
}
void access(const void* p, size_t n, bool write, bool atomic, void* pc) {
  uintptr_t a = (uintptr_t)p;
  Thread* me = cur;
  while (n) {
    size_t off = a & 7, len = std::min<size_t>(8 - off, n);
    uint8_t mask = ((1u << len) - 1) << off;
    if (Cell* c = cell_of(a >> 3)) {
      if (c->freed)
        mc::fail("use after free: T%d %s freed memory (access pc %p, freed at pc %p)", me->id, write ? "writes" : "reads", pc, c->freed_pc);
      for (int i = 0; i < nthreads; ++i) {
        if (i == me->id) continue;
        Acc& w = c->w[i];
        if ((w.mask & mask) && w.clk > me->vc.c[i] && !(atomic && w.atomic))
          mc::fail("data race: T%d %s%s at pc %p unordered with T%d's %swrite at pc %p", me->id, atomic ? "atomic " : "",
                   write ? "write" : "read", pc, i, w.atomic ? "atomic " : "", w.pc);
        if (write) {
          Acc& r = c->r[i];
          if ((r.mask & mask) && r.clk > me->vc.c[i] && !(atomic && r.atomic))
            mc::fail("data race: T%d %swrite at pc %p unordered with T%d's %sread at pc %p", me->id, atomic ? "atomic " : "", pc, i,
                     r.atomic ? "atomic " : "", r.pc);
        }
      }
      Acc& m = write ? c->w[me->id] : c->r[me->id];
      uint32_t clk = me->vc.c[me->id];
      m.mask = m.clk == clk && m.atomic == atomic ? m.mask | mask : mask;
      m.clk = clk;
      m.atomic = atomic;
      m.pc = pc;
    }
    a += len;
    n -= len;
  }
}

// ---- atomics ----------------------------------------------------------------
Loc* loc_of(const void* a, int size, uint64_t current) {
  Loc* l;
  for (l = locs[bucket(a)]; l; l = l->next)
    if (l->addr == a && l->size == size) break;
  if (!l) {
    if (loc_used == loc_pool->size()) loc_pool->push_back((Loc*)__libc_malloc(sizeof(Loc)));
    l = (*loc_pool)[loc_used++];
    l->addr = a;
    l->size = size;
    l->n = 0;
    l->base = 0;
    memset(l->floor, 0, sizeof l->floor);
    l->sc_floor = 0;
    l->next = locs[bucket(a)];
    locs[bucket(a)] = l;
  }
  if (l->n == 0 || l->h[l->n - 1].value != current) {
    // first access, or memory re-initialised behind our back
    uint32_t idx = l->base + l->n;
    l->base = idx;
    l->n = 1;
    Store& s = l->h[0];
    s.value = current;
    s.tid = -1;
    s.clk = 0;
    s.has_rel = false;
    for (auto& f : l->floor) f = idx;
    l->sc_floor = idx;
  }
  return l;
}
void push_store(Loc* l, uint64_t v, const VC* rel) {
  if (l->n == kHist) {
    memmove(&l->h[0], &l->h[1], sizeof(Store) * (kHist - 1));
    l->n--;
    l->base++;
  }
  Store& s = l->h[l->n++];
  s.value = v;
  s.tid = cur->id;
  s.clk = cur->vc.c[cur->id];
  s.has_rel = rel != nullptr;
  if (rel) s.rel = *rel;
}
bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void note_read(const void* a, uint64_t v) {
  Thread* t = cur;
  if (no_preempt) return;
  if (t->window_effects != effects) {
    t->window_effects = effects;
    t->nseen = 0;
  }
  for (int i = 0; i < t->nseen; ++i)
    if (t->seen[i].a == a && t->seen[i].v == v) {
      if (++t->seen[i].n >= 6) {
        t->want_yield = true;
        t->seen[i].n = 3;
      }
      return;
    }
  if (t->nseen < 8) t->seen[t->nseen++] = {a, v, 1};
}

void acquire_from(const Store& s, int mo) {
  if (!s.has_rel) return;
  if (is_acq(mo))
    cur->vc.join(s.rel);
  else
    cur->acq_pending.join(s.rel);
}

template <class T>
T atomic_load(const volatile T* p, int mo, void* pc) {
  point_("atomic load");
  Guard g;
  access((const void*)p, sizeof(T), false, true, pc);
  T raw = *p;
  uint64_t v = 0;
  memcpy(&v, &raw, sizeof(T));
  Loc* l = loc_of((const void*)p, sizeof(T), v);
  // visible stores (a seq_cst load may miss stores that are not seq_cst)
  uint32_t last = l->base + l->n - 1;
  uint32_t lo = std::max(l->floor[cur->id], l->base);
  for (int i = l->n - 1; i >= 0; --i) {
    const Store& s = l->h[i];
    if (s.tid < 0 || s.clk <= cur->vc.c[s.tid]) {
      lo = std::max<uint32_t>(lo, l->base + i);
      break;
    }
  }
  if (l->sc_floor > lo && mo == 5) lo = l->sc_floor;
  int k = (int)(last - lo) + 1, c = 0;
  if (k > 1 && !no_preempt) c = mc::deviate(k, "stale-load");
  const Store& s = l->h[last - c - l->base];
  l->floor[cur->id] = last - c;
  if (mo == 5) l->sc_floor = std::max(l->sc_floor, last - (uint32_t)c);  // seq_cst loads agree on an order
  acquire_from(s, mo);
  if (c && mc::logging()) mc::log("    T%d reads a stale value", cur->id);
  note_read((const void*)p, s.value);
  T r;
  memcpy(&r, &s.value, sizeof(T));
  return r;
}
template <class T>
void atomic_store_nopoint(volatile T* p, T v, int mo, void* pc) {
  Guard g;
  access((const void*)p, sizeof(T), true, true, pc);
  T raw = *p;
  uint64_t old = 0, nv = 0;
  memcpy(&old, &raw, sizeof(T));
  memcpy(&nv, &v, sizeof(T));
  Loc* l = loc_of((const void*)p, sizeof(T), old);
  VC rel;
  bool has = false;
  if (is_rel(mo)) {
    rel = cur->vc;
    has = true;
  } else if (cur->has_rel_fence) {
    rel = cur->rel_fence;
    has = true;
  }
  push_store(l, nv, has ? &rel : nullptr);
  l->floor[cur->id] = l->base + l->n - 1;
  if (mo == 5) l->sc_floor = l->base + l->n - 1;
  *p = v;
  tick(cur);
  if (nv != old) effect();
}
template <class T>
void atomic_store(volatile T* p, T v, int mo, void* pc) {
  point_("atomic store");
  atomic_store_nopoint(p, v, mo, pc);
}
// Read-modify-write: f(old) -> {do_write, new}
template <class T, class F>
T atomic_rmw(volatile T* p, int mo, int fail_mo, void* pc, F f) {
  point_("atomic rmw");
  Guard g;
  T oldv = *p;
  uint64_t o = 0;
  memcpy(&o, &oldv, sizeof(T));
  T nv;
  bool write = f(oldv, nv);
  access((const void*)p, sizeof(T), write, true, pc);
  Loc* l = loc_of((const void*)p, sizeof(T), o);
  Store prev = l->h[l->n - 1];
  acquire_from(prev, write ? mo : fail_mo);
  l->floor[cur->id] = l->base + l->n - 1;
  if (write) {
    uint64_t n = 0;
    memcpy(&n, &nv, sizeof(T));
    VC rel;
    rel.clear();
    bool has = false;
    if (prev.has_rel) {
      rel = prev.rel;  // release sequence continues
      has = true;
    }
    if (is_rel(mo)) {
      rel.join(cur->vc);
      has = true;
    } else if (cur->has_rel_fence) {
      rel.join(cur->rel_fence);
      has = true;
    }
    push_store(l, n, has ? &rel : nullptr);
    l->floor[cur->id] = l->base + l->n - 1;
    if (mo == 5) l->sc_floor = l->base + l->n - 1;
    *p = nv;
    tick(cur);
    if (n != o)
      effect();
    else
      note_read((const void*)p, o);
  } else
    note_read((const void*)p, o);
  return oldv;
}

void fence(int mo) {
  point_("fence");
  Guard g;
  if (is_acq(mo)) cur->vc.join(cur->acq_pending);
  if (mo == 5) {
    VC& s = sync_of((void*)1);
    cur->vc.join(s);
    s.join(cur->vc);
  }
  if (is_rel(mo)) {
    cur->rel_fence = cur->vc;
    cur->has_rel_fence = true;
    tick(cur);
  }
}

void do_free(void* p, void* pc) {
  Guard g;
  size_t n = malloc_usable_size(p);
  uintptr_t a = (uintptr_t)p;
  size_t lim = std::min<size_t>(n, 8192);
  Cell* first = nullptr;
  for (size_t i = 0; i < lim; i += 8) {
    // the first granule is always marked so that a double free or a late
    // access to the object header is seen; others only when tracked
    Cell* c = i < 256 ? cell_of((a + i) >> 3) : find_cell((a + i) >> 3);
    if (!c) continue;
    if (i == 0) first = c;
    if (c->freed && i == 0) mc::fail("double free by T%d (pc %p, first freed at pc %p)", cur->id, pc, c->freed_pc);
    for (int t = 0; t < nthreads; ++t) {
      if (t == cur->id) continue;
      if (c->w[t].mask && c->w[t].clk > cur->vc.c[t])
        mc::fail("data race: T%d frees memory (pc %p) unordered with T%d's write at pc %p", cur->id, pc, t, c->w[t].pc);
      if (c->r[t].mask && c->r[t].clk > cur->vc.c[t])
        mc::fail("data race: T%d frees memory (pc %p) unordered with T%d's read at pc %p", cur->id, pc, t, c->r[t].pc);
    }
    c->freed = 1;
    c->freed_pc = pc;
  }
  (void)first;
  while (q_lock.test_and_set(std::memory_order_acquire)) {
  }
  quarantine->push_back(p);
  q_lock.clear(std::memory_order_release);
}

struct TlsImage {
  char* block = nullptr;
  const char* init = nullptr;
  size_t filesz = 0, memsz = 0;
};
int find_tls(dl_phdr_info* info, size_t, void* out) {
  // the first module is the executable itself
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      TlsImage* t = (TlsImage*)out;
      t->block = (char*)info->dlpi_tls_data;
      t->init = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      t->filesz = info->dlpi_phdr[i].p_filesz;
      t->memsz = info->dlpi_phdr[i].p_memsz;
    }
  return 1;
}

void* thread_main(void* a) {
  int id = (int)(intptr_t)a;
  TlsImage tls;
  dl_iterate_phdr(find_tls, &tls);
  for (;;) {
    futex_wait(&gos[id]);
    Thread* t = threads[id];
    if (tls.block) {
      memcpy(tls.block, tls.init, tls.filesz);
      memset(tls.block + tls.filesz, 0, tls.memsz - tls.filesz);
    }
    in_rt = 1;
    cur = t;
    t->kind = RUN;
    --in_rt;
    t->ret = t->fn(t->arg);
    while (!t->dtors.empty()) {
      ++in_rt;
      auto d = t->dtors.back();
      t->dtors.pop_back();
      --in_rt;
      d.f(d.o);
    }
    ++in_rt;
    t->finished = true;
    effect();
    if (mc::logging()) mc::log("    T%d ends", t->id);
    Thread* next = pick(t);
    cur = nullptr;
    if (next) switch_to(nullptr, next);
    --in_rt;
  }
}
}  // namespace

namespace mc {
void enable_spurious_wakeups() { spurious = true; }
int64_t virtual_now() { return vnow; }
void advance_time(int64_t ns) { vnow += ns; }
bool in_execution() { return active && cur; }
int thread_index() { return cur ? cur->id : -1; }
// (every store that others can synchronize with is followed by a tick)
Stamp stamp() { return {cur->id, (uint64_t)cur->vc.c[cur->id] - 1}; }
bool ordered(const Stamp& s) { return s.thread == cur->id || s.clock <= cur->vc.c[s.thread]; }
int live_threads() {
  int n = 0;
  for (int i = 1; i < nthreads; ++i) n += !threads[i]->finished;
  return n;
}
NoPreempt::NoPreempt() { ++no_preempt; }
NoPreempt::~NoPreempt() { --no_preempt; }
void point(const char* what) {
  if (!on()) return;
  point_(what);
}
void hb_release(const void* o) {
  if (!on()) return;
  Guard g;
  sync_of(o).join(cur->vc);
  tick(cur);
  effect();
}
void hb_acquire(const void* o) {
  if (!on()) return;
  Guard g;
  cur->vc.join(sync_of(o));
}
static bool block_(bool (*pred)(void*), void* arg, bool timed, int64_t deadline, const char* what) {
  if (!on()) internal_error("block_until outside an execution");
  Guard g;
  Thread* t = cur;
  t->kind = PRED;
  t->pred = pred;
  t->pred_arg = arg;
  t->timed = timed;
  t->deadline = deadline;
  t->what = what;
  int np = no_preempt;
  sched();
  (void)np;
  t->timed = false;
  effect();
  return t->wake != 1;
}
void block_until(bool (*pred)(void*), void* arg, const char* what) { block_(pred, arg, false, 0, what); }
bool block_until_deadline(bool (*pred)(void*), void* arg, int64_t d, const char* what) {
  return block_(pred, arg, true, d, what);
}

void run_threads(void (*body)()) {
  {
    Guard g;
    if (!cells) {
      cells = (Cell*)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      stack_pool = (uint8_t*)mmap(nullptr, kStack * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      syncs = new std::vector<Sync>;
      mutex_pool = new std::vector<Mutex*>;
      loc_pool = new std::vector<Loc*>;
      quarantine = new std::vector<void*>;
      for (int i = 0; i < MAXT; ++i) threads[i] = new Thread;
    }
    ++exec_epoch;
    cells_used = 0;
    memset(mutexes, 0, sizeof mutexes);
    memset(locs, 0, sizeof locs);
    mutex_used = loc_used = 0;
    syncs->clear();
    nthreads = 1;
    vnow = 1000000000ll;
    effects = sched_seq = idle_yields = 0;
    no_preempt = 0;
    spurious = false;
    Thread* t = threads[0];
    t->~Thread();
    new (t) Thread;
    t->id = 0;
    t->created = true;
    t->vc.clear();
    t->acq_pending.clear();
    t->vc.c[0] = 1;
    cur = t;
    active = true;
  }
  body();
  {
    Guard g;
    cur->kind = WAITALL;
    cur->what = "harness end: waiting for every thread to finish";
    sched();
    active = false;
    cur = nullptr;
    for (void* p : *quarantine) __libc_free(p);
    quarantine->clear();
  }
}
}  // namespace mc

// ---- interposed libc / pthread ------------------------------------------------
extern "C" {
#define PC __builtin_return_address(0)
void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void* p) {
  if (!p) return;
  if (active) {
    if (cur && !in_rt) return do_free(p, PC);
    if (!cur) {  // a model thread on its way out
      while (q_lock.test_and_set(std::memory_order_acquire)) {
      }
      ++in_rt;
      quarantine->push_back(p);
      --in_rt;
      q_lock.clear(std::memory_order_release);
      return;
    }
  }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (active && cur && !in_rt && p) {
    void* q = __libc_malloc(n);
    memcpy(q, p, std::min(n, malloc_usable_size(p)));
    do_free(p, PC);
    return q;
  }
  return __libc_realloc(p, n);
}
static void del(void* p, void* pc) {
  if (!p) return;
  if (active && cur && !in_rt)
    do_free(p, pc);
  else
    free(p);
}
}
void operator delete(void* p) noexcept { del(p, PC); }
void operator delete[](void* p) noexcept { del(p, PC); }
void operator delete(void* p, size_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t) noexcept { del(p, PC); }
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  static int (*rc)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); if (!rc) rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!on()) return rc(out, attr, fn, arg);
  point_("thread create");
  Guard g;
  if (nthreads >= MAXT) mc::internal_error("too many threads");
  int id = nthreads;
  Thread* t = threads[id];
  t->~Thread();
  new (t) Thread;
  t->id = id;
  t->fn = fn;
  t->arg = arg;
  t->kind = NEWTHREAD;
  t->vc = cur->vc;
  t->acq_pending.clear();
  t->vc.c[id]++;
  tick(cur);
  Os& os = os_threads[id];
  pid_t pid = syscall(SYS_getpid);
  if (!os.live || os.pid != pid) {
    gos[id].store(0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stack_pool + kStack * id, kStack);
    int r = rc(&os.real, &at, thread_main, (void*)(intptr_t)id);
    pthread_attr_destroy(&at);
    if (r) mc::internal_error("pthread_create: %d", r);
    os.live = true;
    os.pid = pid;
  }
  t->real = os.real;
  t->created = true;
  ++nthreads;
  *out = t->real;
  effect();
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  return 0;
}
static Thread* find_thread(pthread_t p) {
  for (int i = 1; i < nthreads; ++i)
    if (threads[i]->created && threads[i]->real == p) return threads[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  static int (*rj)(pthread_t, void**); if (!rj) rj = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!on()) return rj(p, ret);
  Guard g;
  Thread* t = find_thread(p);
  if (!t) mc::fail("join of an unknown thread");
  if (t->joined || t->detached) mc::fail("thread joined twice or after detach");
  if (t == cur) mc::fail("thread joins itself");
  cur->kind = JOIN;
  cur->obj = t;
  cur->what = "join";
  sched();
  cur->vc.join(t->vc);
  t->joined = true;
  effect();
  if (ret) *ret = t->ret;
  return 0;
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
  if (active && cur && cur->id > 0) {
    Guard g;
    cur->dtors.push_back({f, o});
    return 0;
  }
  static int (*r)(void (*)(void*), void*, void*); if (!r) r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
  return r(f, o, dso);
}
int pthread_detach(pthread_t p) {
  static int (*rd)(pthread_t); if (!rd) rd = real<int (*)(pthread_t)>("pthread_detach");
  if (!on()) return rd(p);
  Thread* t = find_thread(p);
  if (t) t->detached = true;
  return 0;
}
static int lock_(pthread_mutex_t* m, const char* what) {
  Guard g;
  Mutex* mm = get_mutex(m);
  if (mm->owner == cur->id) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
      mm->depth++;
      return 0;
    }
    mc::fail("deadlock: T%d locks a mutex it already holds", cur->id);
  }
  cur->kind = LOCK;
  cur->mutex = mm;
  cur->what = what;
  if (no_preempt && mm->owner == -1) {
  } else
    sched();
  cur->kind = RUN;
  mm->owner = cur->id;
  mm->depth = 1;
  cur->vc.join(mm->vc);
  effect();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*r)(pthread_mutex_t*); if (!r) r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!on()) return r(m);
  return lock_(m, "");
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static int (*r)(pthread_mutex_t*); if (!r) r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!on()) return r(m);
  point_("trylock");
  Guard g;
  Mutex* mm = get_mutex(m);
  if (mm->owner != -1) {
    note_read(m, 1);
    return EBUSY;
  }
  mm->owner = cur->id;
  mm->depth = 1;
  cur->vc.join(mm->vc);
  effect();
  return 0;
}
static void unlock_(Mutex* mm) {
  mm->vc = cur->vc;
  tick(cur);
  mm->owner = -1;
  mm->depth = 0;
  effect();
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*r)(pthread_mutex_t*); if (!r) r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!on()) return r(m);
  // a preemption just before unlocking is only useful to expose waiters; the
  // interesting point is the one before the next operation
  Guard g;
  Mutex* mm = get_mutex(m);
  if (mm->owner != cur->id) mc::fail("T%d unlocks a mutex it does not hold", cur->id);
  if (--mm->depth > 0) return 0;
  unlock_(mm);
  point_("after unlock");
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (on()) {
    Guard g;
    Mutex* mm = get_mutex(m);
    if (mm->owner != -1) mc::fail("mutex destroyed while held by T%d", mm->owner);
  }
  return 0;
}
static int wait_(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
  Guard g;
  Mutex* mm = get_mutex(m);
  if (mm->owner != cur->id) mc::fail("condition wait without holding the mutex");
  Thread* t = cur;
  unlock_(mm);
  t->kind = CONDWAIT;
  t->obj = c;
  t->mutex = mm;
  t->signaled = false;
  t->timed = timed;
  t->deadline = deadline;
  t->what = "condition variable";
  sched();
  mm->owner = t->id;
  mm->depth = 1;
  t->vc.join(mm->vc);
  t->timed = false;
  t->signaled = false;
  t->obj = nullptr;
  effect();
  return t->wake == 1 ? ETIMEDOUT : 0;
}
static const int64_t kRealBase = 1600000000ll * 1000000000ll;
static int64_t to_ns(const timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static int (*r)(pthread_cond_t*, pthread_mutex_t*); if (!r) r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!on()) return r(c, m);
  return wait_(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  static int (*r)(pthread_cond_t*, pthread_mutex_t*, const timespec*); if (!r) r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
  if (!on()) return r(c, m, ts);
  return wait_(c, m, true, to_ns(ts) - kRealBase);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  static int (*r)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*); if (!r) r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
  if (!on()) return r(c, m, clk, ts);
  return wait_(c, m, true, clk == CLOCK_REALTIME ? to_ns(ts) - kRealBase : to_ns(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  static int (*r)(pthread_cond_t*); if (!r) r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!on()) return r(c);
  point_("notify");
  Guard g;
  Thread* w[MAXT];
  int n = 0;
  for (int i = 0; i < nthreads; ++i) {
    Thread* t = threads[i];
    if (t->created && !t->finished && t->kind == CONDWAIT && t->obj == c && !t->signaled) w[n++] = t;
  }
  if (n) {
    int k = n > 1 && !no_preempt ? mc::choose(n, "notify-one") : 0;
    w[k]->signaled = true;
  }
  effect();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static int (*r)(pthread_cond_t*); if (!r) r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!on()) return r(c);
  point_("notify");
  Guard g;
  for (int i = 0; i < nthreads; ++i) {
    Thread* t = threads[i];
    if (t->created && !t->finished && t->kind == CONDWAIT && t->obj == c) t->signaled = true;
  }
  effect();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on()) {
    for (int i = 0; i < nthreads; ++i) {
      Thread* t = threads[i];
      if (t->created && !t->finished && t->kind == CONDWAIT && t->obj == c && !t->signaled)
        mc::fail("condition variable destroyed while T%d waits on it", t->id);
    }
  }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  static int (*r)(pthread_once_t*, void (*)()); if (!r) r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!on()) return r(o, fn);
  ++no_preempt;
  int x = r(o, fn);
  --no_preempt;
  Guard g;
  VC& s = sync_of(o);
  cur->vc.join(s);
  s.join(cur->vc);
  tick(cur);
  return x;
}
int __cxa_guard_acquire(uint64_t* gd) {
  static int (*r)(uint64_t*); if (!r) r = real<int (*)(uint64_t*)>("__cxa_guard_acquire");
  int x = r(gd);
  if (on()) {
    if (x) ++no_preempt;
    Guard g;
    cur->vc.join(sync_of(gd));
  }
  return x;
}
void __cxa_guard_release(uint64_t* gd) {
  static void (*r)(uint64_t*); if (!r) r = real<void (*)(uint64_t*)>("__cxa_guard_release");
  if (on()) {
    --no_preempt;
    {
      Guard g;
      sync_of(gd).join(cur->vc);
    }
    r(gd);
    // make the byte readable with acquire by later fast-path checks
    Guard g;
    volatile uint8_t* b = (volatile uint8_t*)gd;
    Loc* l = loc_of((void*)b, 1, *b);
    l->h[l->n - 1].has_rel = true;
    l->h[l->n - 1].rel = cur->vc;
    tick(cur);
    return;
  }
  r(gd);
}
void __cxa_guard_abort(uint64_t* gd) {
  static void (*r)(uint64_t*); if (!r) r = real<void (*)(uint64_t*)>("__cxa_guard_abort");
  if (on()) --no_preempt;
  r(gd);
}
int sched_yield() {
  if (!on()) return syscall(SYS_sched_yield);
  Guard g;
  if (no_preempt) return 0;
  cur->want_yield = true;
  cur->kind = RUN;
  cur->what = "yield";
  sched();
  return 0;
}
static int sleep_until_(int64_t d) {
  Guard g;
  if (no_preempt) {
    vnow = std::max(vnow, d);
    return 0;
  }
  cur->kind = SLEEP;
  cur->deadline = d;
  cur->what = "sleep";
  sched();
  if (vnow < d) vnow = d;
  effect();
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (!on()) return syscall(SYS_nanosleep, ts, rem);
  return sleep_until_(vnow + to_ns(ts));
}
int clock_nanosleep(clockid_t c, int fl, const timespec* ts, timespec* rem) {
  if (!on()) return syscall(SYS_clock_nanosleep, c, fl, ts, rem) ? errno : 0;
  int64_t d = to_ns(ts);
  if (fl & TIMER_ABSTIME)
    d = c == CLOCK_REALTIME ? d - kRealBase : d;
  else
    d += vnow;
  return sleep_until_(d);
}
int usleep(useconds_t u) {
  if (!on()) {
    timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return syscall(SYS_nanosleep, &ts, nullptr);
  }
  return sleep_until_(vnow + u * 1000ll);
}
int clock_gettime(clockid_t c, timespec* ts) {
  if (!active) return syscall(SYS_clock_gettime, c, ts);
  int64_t t = vnow;
  if (on()) vnow += 1000;  // time moves with every look at the clock
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += kRealBase;
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
int gettimeofday(timeval* tv, void* tz) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

// ---- tsan ABI ---------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(name, n, wr)                                            \
  void name(void* p) {                                              \
    if (on()) {                                                     \
      Guard g;                                                      \
      access(p, n, wr, false, PC);                                  \
    }                                                               \
  }
#define ACCS(n)                                  \
  ACC(__tsan_read##n, n, false)                  \
  ACC(__tsan_write##n, n, true)                  \
  ACC(__tsan_unaligned_read##n, n, false)        \
  ACC(__tsan_unaligned_write##n, n, true)        \
  ACC(__tsan_volatile_read##n, n, false)         \
  ACC(__tsan_volatile_write##n, n, true)         \
  ACC(__tsan_unaligned_volatile_read##n, n, false) \
  ACC(__tsan_unaligned_volatile_write##n, n, true) \
  ACC(__tsan_read_write##n, n, true)             \
  ACC(__tsan_unaligned_read_write##n, n, true)
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
void __tsan_vptr_update(void** p, void* v) {
  if (on() && *p != v) {
    Guard g;
    access(p, 8, true, false, PC);
  }
}
void __tsan_vptr_read(void** p) {
  if (on()) {
    Guard g;
    access(p, 8, false, false, PC);
  }
}
void __tsan_read_range(void* p, size_t n) {
  if (on()) {
    Guard g;
    access(p, std::min<size_t>(n, 4096), false, false, PC);
  }
}
void __tsan_write_range(void* p, size_t n) {
  if (on()) {
    Guard g;
    access(p, std::min<size_t>(n, 4096), true, false, PC);
  }
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (on()) {
    Guard g;
    access(s, std::min<size_t>(n, 4096), false, false, PC);
    access(d, std::min<size_t>(n, 4096), true, false, PC);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (on()) {
    Guard g;
    access(s, std::min<size_t>(n, 4096), false, false, PC);
    access(d, std::min<size_t>(n, 4096), true, false, PC);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (on()) {
    Guard g;
    access(d, std::min<size_t>(n, 4096), true, false, PC);
  }
  return memset(d, c, n);
}
#define ATOMICS(T, N)                                                                           \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) {                                      \
    if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                     \
    return atomic_load<T>(p, mo, PC);                                                           \
  }                                                                                             \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                                   \
    if (!on()) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                 \
    atomic_store<T>(p, v, mo, PC);                                                              \
  }                                                                                             \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) {                                   \
    if (!on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                              \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T, T& n) { n = v; return true; });                  \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) {                                  \
    if (!on()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                               \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = o + v; return true; });            \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) {                                  \
    if (!on()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                               \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = o - v; return true; });            \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) {                                  \
    if (!on()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                               \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = o & v; return true; });            \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) {                                   \
    if (!on()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = o | v; return true; });            \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) {                                  \
    if (!on()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                               \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = o ^ v; return true; });            \
  }                                                                                             \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) {                                 \
    if (!on()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                              \
    return atomic_rmw<T>(p, mo, mo, PC, [v](T o, T& n) { n = ~(o & v); return true; });         \
  }                                                                                             \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {         \
    if (!on()) {                                                                                \
      __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
      return c;                                                                                 \
    }                                                                                           \
    return atomic_rmw<T>(p, mo, fmo, PC, [c, v](T o, T& n) { n = v; return o == c; });          \
  }                                                                                             \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {   \
    if (!on()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    T e = *c;                                                                                   \
    T o = atomic_rmw<T>(p, mo, fmo, PC, [e, v](T o, T& n) { n = v; return o == e; });           \
    if (o == e) return 1;                                                                       \
    *c = o;                                                                                     \
    return 0;                                                                                   \
  }                                                                                             \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {     \
    return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo);                        \
  }
ATOMICS(uint8_t, 8) ATOMICS(uint16_t, 16) ATOMICS(uint32_t, 32) ATOMICS(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  fence(mo);
}
void __tsan_atomic_signal_fence(int) {}
}

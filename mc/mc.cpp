#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>

namespace mc {
__attribute__((weak)) void run_threads(void (*body)()) { body(); }

namespace {
constexpr int kMaxChoices = 1 << 16;
constexpr int kLogCap = 1 << 20;
constexpr int kMaxWorkers = 64;
constexpr int kMaxTasks = 1 << 22;

struct WorkerShm {
  volatile uint64_t exec_count;
  volatile uint64_t transitions;
  volatile uint64_t evals;
  volatile int n_choices;
  volatile int status;  // 0 running 1 finished 2 violation 3 internal error 4 time cap
  volatile int isolated_child;
  char message[8192];
  uint16_t choices[kMaxChoices];
};
struct Shm {
  volatile int stop;
  std::atomic<uint8_t> claim[kMaxTasks];
  WorkerShm w[kMaxWorkers];
  int log_len;
  char log[kLogCap];
};
Shm* shm;
int self;           // worker index
WorkerShm* me;
bool replaying = false, logging_on = false, tier_thorough = false;
double deadline = 1e300;

struct Point {
  uint16_t n;
  uint16_t chosen;
  uint32_t tag;
  uint8_t spent_before;  // deviations spent before this point
  uint8_t costs[16];     // of each alternative; n > 16: costs[0] is that of every alternative but 0
};
std::vector<Point> path;
size_t pos;
int spent;
int cur_bound;
std::vector<uint16_t> forced;  // replay mode
std::unordered_set<uint64_t> states, outcomes;
std::map<uint64_t, std::string> outcome_samples;
std::vector<std::string> known_sigs;
std::set<std::string> known_hits;

double now() {
  timespec ts;
  // direct syscall: clock_gettime may be interposed by the scheduler
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
uint32_t tag_hash(const char* t) {
  uint32_t h = 2166136261u;
  for (; *t; ++t) h = (h ^ (unsigned char)*t) * 16777619u;
  return h;
}
}  // namespace

Register::Register(Scenario s) { scenarios().push_back(s); }
bool thorough() { return tier_thorough; }
int deviations() { return spent; }
int bound() { return cur_bound; }
bool logging() { return logging_on; }

void log(const char* fmt, ...) {
  if (!logging_on) return;
  va_list ap;
  va_start(ap, fmt);
  int room = kLogCap - shm->log_len - 2;
  if (room > 200) {
    int n = vsnprintf(shm->log + shm->log_len, room, fmt, ap);
    if (n > room) n = room;
    shm->log_len += n;
    shm->log[shm->log_len++] = '\n';
    shm->log[shm->log_len] = 0;
  }
  va_end(ap);
}
void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(me->message, sizeof(me->message), fmt, ap);
  va_end(ap);
  me->status = 2;
  log("VIOLATION: %s", me->message);
  _exit(42);
}
void internal_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(me->message, sizeof(me->message), fmt, ap);
  va_end(ap);
  me->status = 3;
  log("INTERNAL ERROR: %s", me->message);
  _exit(43);
}
bool known(const char* s) {
  for (auto& k : known_sigs)
    if (k == s) {
      known_hits.insert(k);
      return true;
    }
  return false;
}
void state(uint64_t h) {
  if (states.size() < (1u << 23)) states.insert(h);
}
void outcome(const std::string& s) {
  uint64_t h = hash(s);
  if (outcomes.size() < (1u << 22)) outcomes.insert(h);
  if (outcome_samples.size() < 6) outcome_samples.emplace(h, s.substr(0, 400));
}
void evaluated(uint64_t n) { me->evals += n; }
uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}

static int choose_impl(int n, const int* costs, int uniform_cost, const char* tag) {
  if (n <= 0) internal_error("choose(%d) at %s", n, tag);
  if (n == 1) return 0;
  if (n > 60000) internal_error("choose(%d) too wide at %s", n, tag);
  me->transitions++;
  int c;
  if (replaying) {
    c = pos < forced.size() ? forced[pos] : 0;
    if (c >= n) internal_error("replay diverged at %zu: choice %d of %d (%s)", pos, c, n, tag);
    ++pos;
    if (pos < (size_t)kMaxChoices) {
      me->choices[pos - 1] = c;
      me->n_choices = pos;
    }
    spent += costs ? costs[c] : c ? uniform_cost : 0;
    return c;
  }
  if (pos >= (size_t)kMaxChoices - 1) internal_error("execution too long (%zu choices)", pos);
  if (pos < path.size()) {
    Point& p = path[pos];
    if (p.n != n || p.tag != tag_hash(tag))
      internal_error("nondeterminism: point %zu was arity %d, is %d (%s)", pos, p.n, n, tag);
    c = p.chosen;
  } else {
    Point p;
    p.n = n;
    p.tag = tag_hash(tag);
    p.chosen = 0;
    p.spent_before = spent;
    if (costs) {
      if (n > 16) internal_error("too many costed alternatives");
      for (int i = 0; i < n; ++i) p.costs[i] = costs[i];
      // the first affordable alternative
      while (p.chosen < n && spent + p.costs[p.chosen] > cur_bound) ++p.chosen;
      if (p.chosen == n) internal_error("no affordable alternative at %s", tag);
    } else if (n <= 16) {
      p.costs[0] = 0;
      for (int i = 1; i < n; ++i) p.costs[i] = uniform_cost;
    } else
      p.costs[0] = uniform_cost;
    path.push_back(p);
    c = p.chosen;
  }
  Point& p = path[pos];
  spent += n <= 16 ? p.costs[c] : (c ? p.costs[0] : 0);
  me->choices[pos] = c;
  ++pos;
  me->n_choices = pos;
  return c;
}
int choose(int n, const char* tag) { return choose_impl(n, nullptr, 0, tag); }
int deviate(int n, const char* tag, int cost) { return choose_impl(n, nullptr, cost, tag); }
int choose_costs(int n, const int* costs, const char* tag) { return choose_impl(n, costs, 0, tag); }

namespace {
void run_body(const Scenario& s) {
  pos = 0;
  spent = 0;
  me->n_choices = 0;
  if (s.threads)
    run_threads(s.body);
  else
    s.body();
}

// In isolated mode each execution runs in a forked child; the child's newly
// discovered points come back through a pipe.
bool run_isolated(const Scenario& s) {
  int fd[2];
  if (pipe(fd)) internal_error("pipe");
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    states.clear();
    outcomes.clear();
    outcome_samples.clear();
    known_hits.clear();
    run_body(s);
    std::string buf;
    auto put = [&](const void* p, size_t n) { buf.append((const char*)p, n); };
    uint64_t v = path.size();
    put(&v, 8);
    put(path.data(), path.size() * sizeof(Point));
    v = pos;
    put(&v, 8);
    v = states.size();
    put(&v, 8);
    for (auto h : states) put(&h, 8);
    v = outcomes.size();
    put(&v, 8);
    for (auto h : outcomes) put(&h, 8);
    v = outcome_samples.size();
    put(&v, 8);
    for (auto& o : outcome_samples) {
      put(&o.first, 8);
      uint64_t l = o.second.size();
      put(&l, 8);
      put(o.second.data(), l);
    }
    v = known_hits.size();
    put(&v, 8);
    for (auto& o : known_hits) {
      uint64_t l = o.size();
      put(&l, 8);
      put(o.data(), l);
    }
    size_t off = 0;
    while (off < buf.size()) {
      ssize_t k = write(fd[1], buf.data() + off, buf.size() - off);
      if (k <= 0) _exit(44);
      off += k;
    }
    _exit(0);
  }
  me->isolated_child = pid;
  close(fd[1]);
  std::string buf;
  char tmp[65536];
  ssize_t k;
  while ((k = read(fd[0], tmp, sizeof(tmp))) > 0 || (k < 0 && errno == EINTR))
    if (k > 0) buf.append(tmp, k);
  close(fd[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  me->isolated_child = 0;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (me->status == 0) {
      if (WIFSIGNALED(st))
        snprintf(me->message, sizeof(me->message), "crash: signal %d", WTERMSIG(st));
      else
        snprintf(me->message, sizeof(me->message), "process ended with status %d (abort, sanitizer report or exit)", WEXITSTATUS(st));
      me->status = 2;
    }
    _exit(me->status == 3 ? 43 : 42);
  }
  const char* p = buf.data();
  auto get64 = [&] {
    uint64_t v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  };
  uint64_t n = get64();
  path.resize(n);
  memcpy((void*)path.data(), p, n * sizeof(Point));
  p += n * sizeof(Point);
  pos = get64();
  for (n = get64(); n; --n) state(get64());
  for (n = get64(); n; --n) outcomes.insert(get64());
  for (n = get64(); n; --n) {
    uint64_t h = get64(), l = get64();
    if (outcome_samples.size() < 6) outcome_samples.emplace(h, std::string(p, l));
    p += l;
  }
  for (n = get64(); n; --n) {
    uint64_t l = get64();
    known_hits.insert(std::string(p, l));
    p += l;
  }
  return true;
}

struct SampleStore {
  std::vector<std::vector<uint16_t>> v;
} samples;

// Explore everything with deviations <= cur_bound. K: split depth.
int explore(const Scenario& s, int K) {
  path.clear();
  uint32_t next_task = 0;
  uint64_t my_execs = 0;
  bool in_task = false;
  uint64_t turns = 0;
  double breath = now();
  size_t task_end = 0;  // index of the K-th nonzero choice of the current task
  for (;;) {
    if (shm->stop) return 5;
    bool count = in_task || self == 0;
    uint64_t t0 = me->transitions, e0 = me->evals;
    if (s.isolated) {
      run_isolated(s);
      if (s.fallback) usleep(1000);
    } else
      run_body(s);
    if (pos < path.size())
      internal_error("nondeterminism: execution ended after %zu of %zu recorded choices", pos, path.size());
    if (count) {
      me->exec_count++;
      ++my_execs;
      if (self == 0 && (my_execs == 1 || my_execs == 3 || my_execs == 40 || my_execs == 700) && samples.v.size() < 4) {
        std::vector<uint16_t> c;
        for (auto& p : path) c.push_back(p.chosen);
        samples.v.push_back(c);
      }
    } else {
      me->transitions = t0;
      me->evals = e0;
    }
    if ((my_execs & 15) == 0 && now() > deadline) return 4;
    if (s.threads && (++turns & 15) == 0 && now() - breath > 0.05) {
      // threads that wake each other in turn on one processor can starve
      // whatever else is to run there; let go of it now and then
      usleep(20);
      breath = now();
    }
    // next
    for (;;) {
      size_t changed;
      bool more = false;
      while (!path.empty()) {
        Point& p = path.back();
        int c = p.chosen + 1;
        for (; c < p.n; ++c) {
          int cost = p.n <= 16 ? p.costs[c] : p.costs[0];
          if (p.spent_before + cost <= cur_bound) break;
        }
        if (c < p.n) {
          p.chosen = c;
          changed = path.size() - 1;
          more = true;
          break;
        }
        path.pop_back();
      }
      if (!more) return 1;
      if (in_task && changed > task_end) break;  // still inside the claimed subtree
      // count nonzeros up to `changed`
      int nz = 0;
      for (size_t i = 0; i <= changed; ++i) nz += path[i].chosen != 0;
      if (nz < K) {
        in_task = false;
        break;
      }
      // a new task: claim it
      if (next_task >= kMaxTasks) internal_error("too many tasks");
      uint8_t expect = 0;
      bool mine = shm->claim[next_task].load(std::memory_order_relaxed) == 0 &&
                  shm->claim[next_task].compare_exchange_strong(expect, 1);
      ++next_task;
      if (mine) {
        in_task = true;
        task_end = changed;
        break;
      }
      in_task = false;
      // skip: loop to advance past this alternative (path ends at `changed`)
    }
  }
}

// The executions of a pass one after another in one fresh process: 2 if one
// of them is a violation (its choices, and how many went before it), 1 if not.
int run_history(const Scenario& s, int b, double limit, std::string* msg, std::vector<uint16_t>* ch, uint64_t* before) {
  WorkerShm* w = &shm->w[0];
  memset((void*)w, 0, offsetof(WorkerShm, choices));
  memset((void*)shm->claim, 0, sizeof(shm->claim));
  shm->stop = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    self = 0;
    me = w;
    cur_bound = b;
    deadline = now() + limit;
    Scenario c = s;
    c.isolated = false;
    me->status = explore(c, 2);
    _exit(0);
  }
  double end = now() + limit + 60;
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (now() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return 1;
    }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 1;
  if (w->status == 3) return 3;
  *msg = w->status == 2 ? w->message : WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "process ended with status " + std::to_string(WEXITSTATUS(st));
  ch->assign(w->choices, w->choices + w->n_choices);
  *before = w->exec_count;
  return 2;
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

void write_file(const std::string& path_, const std::string& data) {
  FILE* f = fopen(path_.c_str(), "w");
  if (!f) {
    perror(path_.c_str());
    _exit(2);
  }
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}

// Processor time used by one of our own children.
double cpu_seconds(pid_t pid) {
  FILE* f = fopen(("/proc/" + std::to_string(pid) + "/stat").c_str(), "r");
  if (!f) return 0;
  char buf[1024];
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
  buf[n] = 0;
  const char* p = strrchr(buf, ')');
  unsigned long u = 0, s = 0;
  if (p) sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
  return double(u + s) / sysconf(_SC_CLK_TCK);
}

// Re-run one recorded execution in a fresh process with logging. Returns
// status as in WorkerShm (1 finished without violation); -1: hung.
int replay_once(const Scenario& s, const std::vector<uint16_t>& ch, int b, double limit, std::string* msg,
                std::string* logtext) {
  WorkerShm* w = &shm->w[kMaxWorkers - 1];
  memset((void*)w, 0, sizeof(int) * 0 + offsetof(WorkerShm, choices));
  shm->log_len = 0;
  shm->log[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    self = kMaxWorkers - 1;
    me = w;
    replaying = true;
    logging_on = true;
    forced = ch;
    cur_bound = b;
    run_body(s);
    me->status = 1;
    _exit(0);
  }
  double end = now() + limit;
  int st = 0;
  bool hung = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hung = true;
      break;
    }
    usleep(1000);
  }
  if (logtext) logtext->assign(shm->log, shm->log_len);
  if (hung) {
    if (msg) *msg = "execution does not terminate";
    return -1;
  }
  if (w->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 1;
  if (w->status == 3) {
    if (msg) *msg = w->message;
    return 3;
  }
  if (msg) {
    if (w->status == 2)
      *msg = w->message;
    else if (WIFSIGNALED(st))
      *msg = "crash: signal " + std::to_string(WTERMSIG(st));
    else
      *msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) + " (abort, sanitizer report or exit)";
  }
  return 2;
}
}  // namespace

static int real_main(int argc, char** argv) {
  std::string out, pattern, replay, tier = "quick", replay_out, known_file;
  int jobs = 8, force_bound = -1;
  double budget = 600, hang = 30;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = next();
    else if (a == "--scenario") pattern = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--tier") tier = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--bound") force_bound = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--hang") hang = atof(next().c_str());
    else if (a == "--known") known_file = next();
    else if (a == "--list") list = true;
  }
  tier_thorough = tier == "thorough";
  if (jobs > kMaxWorkers - 2) jobs = kMaxWorkers - 2;
  std::sort(scenarios().begin(), scenarios().end(),
            [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
  if (list) {
    for (auto& s : scenarios()) printf("%s q=%d t=%d\n", s.name, s.quick_bound, s.thorough_bound);
    return 0;
  }
  if (!known_file.empty()) {
    FILE* f = fopen(known_file.c_str(), "r");
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n')) l.pop_back();
      if (!l.empty()) known_sigs.push_back(l);
    }
    if (f) fclose(f);
  }
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  me = &shm->w[0];
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  if (!replay.empty()) {
    // replay file: lines "scenario NAME", "bound N", "choices a b c ..."
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) {
      perror("replay");
      return 2;
    }
    char name[256] = "";
    int b = 0;
    std::vector<uint16_t> ch;
    bool history = false;
    char word[256];
    while (fscanf(f, "%255s", word) == 1) {
      if (!strcmp(word, "scenario")) { if (fscanf(f, "%255s", name) != 1) break; }
      else if (!strcmp(word, "bound")) { if (fscanf(f, "%d", &b) != 1) break; }
      else if (!strcmp(word, "history")) history = true;
      else if (!strcmp(word, "choices")) {
        int x;
        while (fscanf(f, "%d", &x) == 1) ch.push_back(x);
        break;
      }
    }
    fclose(f);
    for (auto& s : scenarios())
      if (!strcmp(s.name, name)) {
        std::string msg, lg;
        uint64_t before = 0;
        std::vector<uint16_t> ch2;
        int st = history ? run_history(s, b, 300, &msg, &ch2, &before) : replay_once(s, ch, b, 120, &msg, &lg);
        if (history && st == 2) printf("after %llu earlier executions in the same process\n", (unsigned long long)before);
        printf("%s", lg.c_str());
        printf("replay of %s: %s %s\n", name, st == 1 ? "no violation" : st == 3 ? "internal error" : "VIOLATION", msg.c_str());
        return st == 1 ? 0 : st == 3 ? 2 : 1;
      }
    printf("no scenario %s\n", name);
    return 2;
  }

  double start = now();
  std::string js = "{\"scenarios\":[";
  bool first = true;
  int rc = 0;
  std::string vio;
  std::set<std::string> all_known_hits;
  int remaining = 0;
  for (auto& s : scenarios())
    if (pattern.empty() || strstr(s.name, pattern.c_str())) ++remaining;
  for (auto& s : scenarios()) {
    if (!pattern.empty() && !strstr(s.name, pattern.c_str())) continue;
    if (rc) break;
    int maxb = force_bound >= 0 ? force_bound : tier_thorough ? s.thorough_bound : s.quick_bound;
    if (maxb < 0) continue;  // not in this tier
    double s0 = now();
    // iterate the bound: 0, then the rest; the time left is shared evenly among the remaining scenarios
    double left = budget - (now() - start);
    double share = remaining > 0 ? left / remaining : left;
    // a scenario may use up to 2.5 shares: the short ones leave room
    double scen_deadline = now() + std::max(5.0, std::min(left, std::max(2.0, share * 2.5)));
    --remaining;
    int completed = -1;
    bool capped = false;
    uint64_t execs = 0, trans = 0, evals = 0, execs_partial = 0;
    std::unordered_set<uint64_t> all_states, all_outcomes;
    std::map<uint64_t, std::string> all_samples;
    std::vector<std::vector<uint16_t>> sample_choices;
    int retries = 0;
    // A violation, or a divergence, that its execution alone does not show:
    // something is carried from one execution to the next.
    std::string cross_msg;
    int cross_bound = 0;
    for (int b = 0; b <= maxb && !capped && !rc; ++b) {
      double pass_start = now();
      cur_bound = b;
      deadline = scen_deadline;
      capped = false;
      int nw = s.isolated || b > 0 ? jobs : jobs;
      memset((void*)shm->claim, 0, sizeof(shm->claim));
      shm->stop = 0;
      std::vector<pid_t> pids(nw);
      std::vector<int> fds(nw), live(nw, 1);
      std::vector<std::string> bufs(nw);
      for (int i = 0; i < nw; ++i) {
        WorkerShm* w = &shm->w[i];
        memset((void*)w, 0, offsetof(WorkerShm, choices));
        int fd[2];
        if (pipe(fd)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          for (int j = 0; j < i; ++j) close(fds[j]);
          close(fd[0]);
          if (s.threads) {
            cpu_set_t cs;
            cpu_set_t have;
            CPU_ZERO(&have);
            sched_getaffinity(0, sizeof have, &have);
            int cnt = CPU_COUNT(&have), want = cnt ? i % cnt : 0, k = 0;
            CPU_ZERO(&cs);
            for (int c = 0; c < CPU_SETSIZE; ++c)
              if (CPU_ISSET(c, &have)) {
                if (k++ == want) CPU_SET(c, &cs);
              }
            if (cnt) sched_setaffinity(0, sizeof cs, &cs);
          }
          self = i;
          me = w;
          int st = explore(s, 2);
          // ship results
          std::string buf;
          auto put = [&](const void* p, size_t n) { buf.append((const char*)p, n); };
          uint64_t v = states.size();
          put(&v, 8);
          for (auto h : states) put(&h, 8);
          v = outcomes.size();
          put(&v, 8);
          for (auto h : outcomes) put(&h, 8);
          v = outcome_samples.size();
          put(&v, 8);
          for (auto& o : outcome_samples) {
            put(&o.first, 8);
            uint64_t l = o.second.size();
            put(&l, 8);
            put(o.second.data(), l);
          }
          v = samples.v.size();
          put(&v, 8);
          for (auto& o : samples.v) {
            uint64_t l = o.size();
            put(&l, 8);
            put(o.data(), l * 2);
          }
          v = known_hits.size();
          put(&v, 8);
          for (auto& o : known_hits) {
            uint64_t l = o.size();
            put(&l, 8);
            put(o.data(), l);
          }
          size_t off = 0;
          while (off < buf.size()) {
            ssize_t k = write(fd[1], buf.data() + off, buf.size() - off);
            if (k <= 0) _exit(44);
            off += k;
          }
          me->status = st == 1 ? 1 : st;
          _exit(0);
        }
        close(fd[1]);
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        pids[i] = pid;
        fds[i] = fd[0];
      }
      // monitor
      std::vector<uint64_t> last(nw, ~0ull);
      std::vector<int> lastc(nw, -1);
      std::vector<double> last_t(nw, now());
      std::vector<double> dead_since(nw, 0), last_cpu(nw, -1);
      int culprit = -1;
      std::string culprit_msg;
      bool hung = false;
      int alive = nw;
      while (alive) {
        bool idle = true;
        for (int i = 0; i < nw; ++i) {
          if (!live[i]) continue;
          char tmp[1 << 16];
          ssize_t k;
          while ((k = read(fds[i], tmp, sizeof tmp)) > 0) {
            bufs[i].append(tmp, k);
            idle = false;
            last_t[i] = now();
          }
          int st;
          pid_t r = waitpid(pids[i], &st, WNOHANG);
          if (r == pids[i]) {
            while ((k = read(fds[i], tmp, sizeof tmp)) > 0) bufs[i].append(tmp, k);
            live[i] = 0;
            --alive;
            close(fds[i]);
            WorkerShm* w = &shm->w[i];
            bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && w->status != 2 && w->status != 3;
            if (!ok && culprit < 0) {
              culprit = i;
              if (w->status == 2 || w->status == 3)
                culprit_msg = w->message;
              else if (WIFSIGNALED(st))
                culprit_msg = "crash: signal " + std::to_string(WTERMSIG(st));
              else
                culprit_msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) +
                              " (abort, sanitizer report or exit)";
              shm->stop = 1;
            }
          } else {
            WorkerShm* w = &shm->w[i];
            uint64_t prog = w->transitions + w->exec_count + w->evals + bufs[i].size();
            if (prog != last[i] || w->n_choices != lastc[i]) {
              last[i] = prog;
              lastc[i] = w->n_choices;
              last_t[i] = now();
              last_cpu[i] = -1;
            } else if (last_cpu[i] < 0) {
              last_cpu[i] = cpu_seconds(w->isolated_child ? w->isolated_child : pids[i]);
            } else if (now() - last_t[i] > hang && culprit < 0 &&
                       (cpu_seconds(w->isolated_child ? w->isolated_child : pids[i]) - last_cpu[i] > hang / 3 || now() - last_t[i] > 4 * hang)) {
              // (it used the processor for long or is blocked for very long:
              // not just a stalled machine)
              culprit = i;
              hung = true;
              culprit_msg = "execution does not terminate";
              shm->stop = 1;
              if (w->isolated_child) kill(w->isolated_child, SIGKILL);
              kill(pids[i], SIGKILL);
            }
            if (culprit >= 0) {
              if (!dead_since[i]) dead_since[i] = now();
              if (now() - dead_since[i] > 5) {
                if (w->isolated_child) kill(w->isolated_child, SIGKILL);
                kill(pids[i], SIGKILL);
              }
            }
          }
        }
        if (idle) usleep(2000);
      }
      uint64_t ex = 0, tr = 0, ev = 0;
      for (int i = 0; i < nw; ++i) {
        ex += shm->w[i].exec_count;
        tr += shm->w[i].transitions;
        ev += shm->w[i].evals;
        if (shm->w[i].status == 4) capped = true;
      }
      trans += tr;
      evals += ev;
      if (culprit >= 0) {
        WorkerShm* w = &shm->w[culprit];
        std::vector<uint16_t> ch(w->choices, w->choices + w->n_choices);
        int wst = w->status;
        std::string msg, lg;
        int st = -5;
        if (wst == 3 && !s.isolated && culprit_msg.compare(0, 14, "nondeterminism") == 0) {
          fprintf(stderr, "note: %s: %s; each execution now has a process of its own\n", s.name, culprit_msg.c_str());
          s.isolated = s.fallback = true;
          trans -= tr;
          evals -= ev;
          scen_deadline += now() - pass_start;
          --b;
          continue;
        }
        if (wst == 3) {
          fprintf(stderr, "INTERNAL ERROR in %s: %s\n", s.name, culprit_msg.c_str());
          rc = 2;
          break;
        }
        // replay before report: with the recorded prefix (the choices after
        // the crash point default to 0)
        for (int attempt = 0; attempt < 3; ++attempt) {
          st = replay_once(s, ch, b, hung ? 120 : 60, &msg, &lg);
          if (st == 2 || st == -1) break;
        }
        if (st == 2 || st == -1) {
          rc = 1;
          std::string rp = "scenario " + std::string(s.name) + "\nbound " + std::to_string(b) + "\nchoices";
          for (auto c : ch) rp += " " + std::to_string(c);
          rp += "\n#end\n# " + msg + "\n";
          std::string l2 = lg;
          size_t q = 0;
          std::string cl = "# ";
          for (char c : l2) {
            cl += c;
            if (c == '\n') cl += "# ";
          }
          (void)q;
          rp += cl + "\n";
          if (!replay_out.empty()) write_file(replay_out, rp);
          vio = std::string(s.name) + ": " + msg;
          fprintf(stderr, "violation in %s: %s\n", s.name, msg.c_str());
        } else if (st == 1 && !hung && !s.isolated) {
          fprintf(stderr, "note: %s: %s, but its execution replays without it; each execution now has a process of its own\n", s.name, culprit_msg.c_str());
          cross_msg = culprit_msg;
          cross_bound = b;
          s.isolated = s.fallback = true;
          trans -= tr;
          evals -= ev;
          scen_deadline += now() - pass_start;
          --b;
          continue;
        } else if (st != 3 && retries < 2) {
          // A stalled machine (or a process ended from outside) looks like a
          // hang: the recorded execution runs fine on its own, so the whole
          // pass is done again, with more patience.
          fprintf(stderr, "note: %s: %s, but its execution replays without it; repeating the pass\n", s.name, culprit_msg.c_str());
          ++retries;
          hang *= 2;
          trans -= tr;
          evals -= ev;
          scen_deadline += now() - pass_start;
          --b;
          continue;
        } else {
          fprintf(stderr, "UNREPRODUCIBLE in %s: %s (replay status %d: %s)\n", s.name, culprit_msg.c_str(), st, msg.c_str());
          rc = 2;
        }
        execs += ex;
        break;
      }
      for (int i = 0; i < nw; ++i) {
        const char* p = bufs[i].data();
        const char* e = p + bufs[i].size();
        auto get64 = [&] {
          uint64_t v = 0;
          if (p + 8 <= e) memcpy(&v, p, 8);
          p += 8;
          return v;
        };
        for (uint64_t n = get64(); n && p < e; --n) all_states.insert(get64());
        for (uint64_t n = get64(); n && p < e; --n) all_outcomes.insert(get64());
        for (uint64_t n = get64(); n && p < e; --n) {
          uint64_t h = get64(), l = get64();
          if (all_samples.size() < 6) all_samples.emplace(h, std::string(p, l));
          p += l;
        }
        std::vector<std::vector<uint16_t>> sc;
        for (uint64_t n = get64(); n && p < e; --n) {
          uint64_t l = get64();
          std::vector<uint16_t> c(l);
          memcpy(c.data(), p, l * 2);
          p += l * 2;
          sc.push_back(c);
        }
        if (!sc.empty()) sample_choices = sc;
        for (uint64_t n = get64(); n && p < e; --n) {
          uint64_t l = get64();
          all_known_hits.insert(std::string(p, l));
          p += l;
        }
      }
      if (!capped) {
        completed = b;
        execs = ex;  // the executions of the largest completed bound
      } else
        execs_partial = ex;
    }
    if (!rc && !cross_msg.empty()) {
      // no execution fails on its own: does the sequence of them, every time?
      std::string m1, m2;
      std::vector<uint16_t> c1, c2;
      uint64_t n1 = 0, n2 = 0;
      int a = run_history(s, cross_bound, 60, &m1, &c1, &n1), d = run_history(s, cross_bound, 60, &m2, &c2, &n2);
      if (a == 2 && d == 2 && c1 == c2 && n1 == n2) {
        rc = 1;
        std::string rp = "scenario " + std::string(s.name) + "\nbound " + std::to_string(cross_bound) + "\nhistory\nchoices";
        for (auto c : c1) rp += " " + std::to_string(c);
        rp += "\n#end\n# " + m1 + " (after " + std::to_string(n1) + " earlier executions in the same process)\n";
        if (!replay_out.empty()) write_file(replay_out, rp);
        vio = std::string(s.name) + ": " + m1;
        fprintf(stderr, "violation in %s: %s (after %llu earlier executions in the same process)\n", s.name, m1.c_str(), (unsigned long long)n1);
      } else {
        fprintf(stderr, "UNREPRODUCIBLE in %s: %s (%d %d)\n", s.name, cross_msg.c_str(), a, d);
        rc = 2;
      }
    }
    // determinism: replay the sampled executions twice and compare their logs
    std::string samp = "[";
    bool fs = true;
    if (!rc) {
      for (auto& c : sample_choices) {
        std::string m1, l1, m2, l2;
        int a = replay_once(s, c, completed < 0 ? 0 : completed, 60, &m1, &l1);
        int d = replay_once(s, c, completed < 0 ? 0 : completed, 60, &m2, &l2);
        if (a != 1 || d != 1 || l1 != l2) {
          fprintf(stderr, "NONDETERMINISM in %s: sampled execution replays differently (%d %d): %s %s\n", s.name, a, d, m1.c_str(), m2.c_str());
          write_file("/tmp/mc_nd_1.txt", l1);
          write_file("/tmp/mc_nd_2.txt", l2);
          rc = 2;
          break;
        }
        std::string one = "{\"scenario\":\"" + std::string(s.name) + "\",\"choices\":[";
        size_t lim = std::min<size_t>(c.size(), 120);
        for (size_t i = 0; i < lim; ++i) one += (i ? "," : "") + std::to_string(c[i]);
        one += "],\"trace\":\"" + json_escape(l1.substr(0, 1500)) + "\"}";
        samp += (fs ? "" : ",") + one;
        fs = false;
      }
    }
    samp += "]";
    js += first ? "" : ",";
    first = false;
    js += "{\"name\":\"" + std::string(s.name) + "\",\"max_bound\":" + std::to_string(maxb) +
          ",\"completed_bound\":" + std::to_string(completed) + ",\"capped\":" + (capped ? "true" : "false") +
          ",\"executions\":" + std::to_string(execs) + ",\"executions_beyond\":" + std::to_string(execs_partial) +
          ",\"transitions\":" + std::to_string(trans) + ",\"evaluations\":" + std::to_string(evals) +
          ",\"states\":" + std::to_string(all_states.size()) + ",\"outcomes\":" + std::to_string(all_outcomes.size()) +
          ",\"outcome_samples\":[";
    bool f2 = true;
    for (auto& o : all_samples) {
      js += (f2 ? "\"" : ",\"") + json_escape(o.second) + "\"";
      f2 = false;
    }
    js += "],\"samples\":" + samp + ",\"wall_s\":" + std::to_string(now() - s0) + "}";
    fprintf(stderr, "  %-40s bound %d%s executions %llu transitions %llu evals %llu states %zu outcomes %zu  %.1fs\n", s.name, completed,
            capped ? " (capped)" : "", (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)evals,
            all_states.size(), all_outcomes.size(), now() - s0);
  }
  js += "],\"known_hits\":[";
  bool f3 = true;
  for (auto& k : all_known_hits) {
    js += (f3 ? "\"" : ",\"") + json_escape(k) + "\"";
    f3 = false;
  }
  js += "],\"rc\":" + std::to_string(rc) + ",\"violation\":\"" + json_escape(vio) + "\"}\n";
  if (!out.empty()) write_file(out, js);
  return rc;
}
}  // namespace mc

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  return mc::real_main(argc, argv);
}

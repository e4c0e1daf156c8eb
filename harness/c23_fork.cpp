// mc: variant=plain
// C23: histories of draws, batches, threads and forks; the generator's sequence.
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "common/fast_random_number_generator.h"
#include "common/random.h"
#include "entropy.h"
#include "mc.h"
using namespace lightstep;
namespace {
struct Log {
  std::atomic<int> n;
  std::atomic<int> bad;
  struct { int stream; uint64_t id; } e[200];
};
Log* shared_log() {
  return (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
Log* log_;
void note(int stream, uint64_t id) {
  int k = log_->n++;
  log_->e[k] = {stream, id};
}
void Draw(int stream) { note(stream, GenerateId()); }
void Batch(int stream) {
  auto a = GenerateIds<3>();
  for (auto x : a) note(stream, x);
}
// executes ops[i..]; forks continue the rest of the history in parent or child
void Play(const std::vector<int>& ops, size_t i, int depth) {
  for (; i < ops.size(); ++i) switch (ops[i]) {
      case 0: Draw(depth); break;
      case 1: Batch(depth); break;
      case 2:
        std::thread{[&] { Draw(depth); Draw(depth); }}.join();
        break;
      case 3:    // fork; the child draws, the parent goes on
      case 4: {  // fork; the child plays the rest, the parent draws
        pid_t p = fork();
        if (p == 0) {
          if (ops[i] == 3) {
            Draw(depth + 10);
            Batch(depth + 10);
          } else
            Play(ops, i + 1, depth + 1);
          _exit(0);
        }
        if (ops[i] == 4) Draw(depth);
        int st;
        if (waitpid(p, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) log_->bad = st ? st : 1;
        if (ops[i] == 4) {
          Draw(depth);
          return;
        }
        break;
      }
      case 5: {  // fork from another thread
        std::thread{[&] {
          if (i % 2) Draw(depth);
          pid_t p = fork();
          if (p == 0) {
            Draw(depth + 20);
            Draw(depth + 20);
            _exit(0);
          }
          Draw(depth);
          int st;
          if (waitpid(p, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) log_->bad = st ? st : 1;
        }}.join();
        break;
      }
    }
}
void History(int depth, int kinds) {
  std::vector<int> ops;
  for (int i = 0; i < depth; ++i) ops.push_back(mc::choose(kinds, "op"));
  log_ = shared_log();  // the execution has a process of its own
  entropy::fresh();
  Play(ops, 0, 0);
  MC_CHECK(!log_->bad, "a child process ended with status %d", (int)log_->bad);
  std::map<uint64_t, int> seen;
  for (int k = 0; k < log_->n; ++k) {
    auto r = seen.insert({log_->e[k].id, log_->e[k].stream});
    MC_CHECK(r.second, "id %016lx is drawn twice (processes %d and %d)", (unsigned long)log_->e[k].id, r.first->second, log_->e[k].stream);
    MC_CHECK(log_->e[k].id != 0, "id 0 drawn");
  }
  mc::state(mc::hash(log_->e, sizeof(log_->e[0]) * log_->n));
  mc::evaluated(log_->n);
}
uint64_t Next(uint64_t& a, uint64_t& b) {  // xorshift128+ (23, 17, 26)
  uint64_t t = a, s = b;
  a = s;
  t ^= t << 23;
  t ^= t >> 17;
  t ^= s ^ (s >> 26);
  b = t;
  return t + s;
}
struct Words {
  std::array<uint32_t, 4> w;
  int calls = 0, count = 0;
  template <class It>
  void generate(It a, It b) {
    ++calls;
    for (; a != b; ++a) *a = w[count++ % 4];
  }
};
}  // namespace
MC_ISOLATED(histories, 0, 0) { History(mc::thorough() ? 6 : 5, 6); }
// the documented sequence for every pair of boundary seed words
MC_SCENARIO(sequence, 0, 0) {
  static const uint32_t v[] = {0, 1, 2, 0x80000000u, 0xffffffffu, 0x12345678u, 0x00800000u};
  Words w{{v[mc::choose(7, "w0")], v[mc::choose(7, "w1")], v[mc::choose(7, "w2")], v[mc::choose(7, "w3")]}};
  FastRandomNumberGenerator g;
  g.seed(w);
  MC_CHECK(w.count == 4, "seeding takes %d words of 4", w.count);
  uint64_t a = w.w[0] | (uint64_t)w.w[1] << 32, b = w.w[2] | (uint64_t)w.w[3] << 32;
  Words w2{w.w};
  FastRandomNumberGenerator g2{w2};
  for (int i = 0; i < 40; ++i) {
    uint64_t e = Next(a, b), x = g(), y = g2();
    MC_CHECK(x == e && y == e, "number %d is %016lx / %016lx, documented %016lx", i, (unsigned long)x, (unsigned long)y, (unsigned long)e);
  }
  static_assert(FastRandomNumberGenerator::min() == 0 && FastRandomNumberGenerator::max() == ~0ull, "range");
  mc::state(a ^ b);
  mc::evaluated(40);
}
// the whole state of a thread's generator comes from fresh entropy; a batch is the successive draws
MC_ISOLATED(seeding, 0, 0) {
  int k = mc::choose(3, "first use");
  entropy::fresh();
  entropy::shared().drawn = 100;
  if (k == 0) GenerateId();
  if (k == 1) GenerateIds<2>();
  if (k == 2) GenerateRandomDuration(std::chrono::nanoseconds{0}, std::chrono::nanoseconds{100});
  uint64_t used = entropy::shared().drawn - 100;
  MC_CHECK(used >= 2, "a generator is seeded from %d words of entropy", (int)used);
  FastRandomNumberGenerator copy = (const FastRandomNumberGenerator&)GetRandomNumberGenerator();
  auto batch = GenerateIds<5>();
  for (int i = 0; i < 5; ++i) MC_CHECK(batch[i] == copy(), "number %d of a batch is not the next number of the stream", i);
  MC_CHECK(GenerateId() == copy(), "the stream is not continued after a batch");
  MC_CHECK(entropy::shared().drawn - 100 == used, "reseeded by use");
  pid_t p = fork();
  if (p == 0) {
    FastRandomNumberGenerator now = (const FastRandomNumberGenerator&)GetRandomNumberGenerator();
    uint64_t more = entropy::shared().drawn - 100 - used;
    bool same = false;
    for (int i = 0; i < 8; ++i) {
      auto x = now();
      FastRandomNumberGenerator c3 = (const FastRandomNumberGenerator&)copy;
      for (int j = 0; j < 16; ++j) same = same || c3() == x;
    }
    _exit(more < 2 ? 1 : same ? 2 : 0);
  }
  int st = -1;
  waitpid(p, &st, 0);
  MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "after a fork the child's generator is %s",
           WIFEXITED(st) && WEXITSTATUS(st) == 1 ? "not reseeded" : "a repetition of the parent's");
  FastRandomNumberGenerator mine = (const FastRandomNumberGenerator&)GetRandomNumberGenerator();
  MC_CHECK(mine() == copy(), "the parent's stream is disturbed by a fork");
  mc::evaluated(8);
}
// durations stay in the range and reach both ends, for every outcome near the range's borders
MC_ISOLATED(durations, 0, 0) {
  static const int64_t lo[] = {0, 1, 999, 1000000000, -5}, width[] = {0, 1, 2, 3, 1000, 4000000000000000000};
  entropy::fresh();
  int64_t a = lo[mc::choose(5, "lo")], b = a + width[mc::choose(6, "width")];
  bool low = false, high = false;
  for (int i = 0; i < 400; ++i) {
    int64_t d = GenerateRandomDuration(std::chrono::nanoseconds{a}, std::chrono::nanoseconds{b}).count();
    MC_CHECK(d >= a && d <= b, "duration %ld outside [%ld, %ld]", (long)d, (long)a, (long)b);
    low |= d == a;
    high |= d == b;
  }
  if (b - a <= 3) MC_CHECK(low && high, "an end of [%ld, %ld] is never produced", (long)a, (long)b);
  auto us = GenerateRandomDuration(std::chrono::microseconds{3}, std::chrono::microseconds{4});
  MC_CHECK(us.count() >= 3 && us.count() <= 4, "duration conversion");
  mc::evaluated(401);
}

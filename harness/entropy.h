// A deterministic std::random_device: every word drawn is new, in this process
// and in every process forked from it.
#pragma once
#include <sys/mman.h>
#include <atomic>
#include <cstdint>
#include <random>
#include <string>
namespace entropy {
struct Shared {
  std::atomic<uint64_t> drawn;
};
inline Shared*& shared_() {
  static Shared* s = nullptr;
  return s;
}
inline Shared& shared() { return *shared_(); }
// at the start of an execution: nothing drawn yet, and nothing shared with other executions
inline void fresh() {
  if (shared_()) munmap(shared_(), 4096);
  shared_() = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
inline unsigned word(uint64_t i) {
  uint64_t z = (i + 1) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (unsigned)(z ^ (z >> 31)) ^ (unsigned)i;
}
}  // namespace entropy
// replaces libstdc++'s definitions
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init_pretr1(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return entropy::word(entropy::shared().drawn.fetch_add(1)); }
std::random_device::result_type std::random_device::_M_getval_pretr1() { return _M_getval(); }
double std::random_device::_M_getentropy() const noexcept { return 32.0; }

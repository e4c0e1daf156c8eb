// Controlled clocks for single-threaded harnesses: replaces libstdc++'s.
#pragma once
#include <chrono>
#include <cstdint>
namespace clocks {
inline int64_t& system_ns() { static int64_t v = 1600000000123456789ll; return v; }
inline int64_t& steady_ns() { static int64_t v = 5000000000777ll; return v; }
inline void Set(int64_t sys, int64_t st) { system_ns() = sys; steady_ns() = st; }
inline void Advance(int64_t ns) { system_ns() += ns; steady_ns() += ns; }
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point{nanoseconds{clocks::system_ns()}}; }
steady_clock::time_point steady_clock::now() noexcept { return time_point{nanoseconds{clocks::steady_ns()}}; }
}}}

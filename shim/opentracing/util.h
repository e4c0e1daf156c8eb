#pragma once
#include <opentracing/version.h>
#include <chrono>
#include <system_error>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
using SystemClock = std::chrono::system_clock;
using SteadyClock = std::chrono::steady_clock;
using SystemTime = SystemClock::time_point;
using SteadyTime = SteadyClock::time_point;

template <class ToClock, class Duration, typename = typename std::enable_if<std::is_same<ToClock, SystemClock>::value>::type>
SystemTime convert_time_point(std::chrono::time_point<SystemClock, Duration> from) {
  return from;
}
template <class ToClock, class Duration, typename = typename std::enable_if<std::is_same<ToClock, SteadyClock>::value>::type>
SteadyTime convert_time_point(std::chrono::time_point<SteadyClock, Duration> from) {
  return from;
}
template <class ToClock, class FromClock, class Duration,
          typename = typename std::enable_if<!std::is_same<ToClock, FromClock>::value>::type>
typename ToClock::time_point convert_time_point(
    std::chrono::time_point<FromClock, Duration> from) {
  auto from_now = FromClock::now();
  auto to_now = ToClock::now();
  return to_now + std::chrono::duration_cast<typename ToClock::duration>(from - from_now);
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

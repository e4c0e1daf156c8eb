// A streaming recorder whose thread ends at once, over a simulated event loop
// that the harness drives (variant asan, ares_dns_resolver.cpp skipped).
#pragma once
#include <atomic>
#include <thread>
#include "common/random.h"
#include "entropy.h"
#include "fake_event.h"
#include "mc.h"
#include "network/dns_resolver.h"
#include "recorder/stream_recorder/stream_recorder.h"
namespace idle {
using namespace lightstep;
struct Silent final : DnsResolver {
  void Resolve(const char*, int, DnsResolutionCallback&) noexcept override {}
};
struct World {
  fake_event::Scope events;
  std::atomic<int> entered{0};
  int expected = 0;
  World() {
    if (!entropy::shared_()) entropy::fresh();
    std::seed_seq seed{5, 6};
    GetRandomNumberGenerator().seed(seed);
    events.w.dispatch = [this](event_base*) { ++entered; return 0; };
  }
  // after everything that starts the recorder's thread
  void Settle() {
    ++expected;
    while (entered < expected) std::this_thread::yield();
  }
  static StreamRecorderOptions Options() {
    StreamRecorderOptions r;
    r.polling_period = r.min_dns_resolution_refresh_period = r.max_dns_resolution_refresh_period = r.dns_failure_retry_period = std::chrono::microseconds{3600ll * 1000000};
    r.num_satellite_connections = 1;
    return r;
  }
  static LightStepTracerOptions TracerOptions() {
    LightStepTracerOptions t;
    t.access_token = "token";
    t.satellite_endpoints = {{"satellite", 8080}};
    t.reporting_period = std::chrono::microseconds{3600ll * 1000000};
    return t;
  }
};
}  // namespace idle
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new idle::Silent{}}; }
}  // namespace lightstep

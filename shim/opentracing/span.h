#pragma once
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <opentracing/value.h>
#include <opentracing/version.h>
#include <chrono>
#include <functional>
#include <initializer_list>
#include <memory>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Tracer;
class SpanContext {
 public:
  virtual ~SpanContext() = default;
  virtual void ForeachBaggageItem(
      std::function<bool(const std::string& key, const std::string& value)> f) const = 0;
};
struct LogRecord {
  SystemTime timestamp;
  std::vector<std::pair<std::string, Value>> fields;
};
struct FinishSpanOptions {
  SteadyTime finish_steady_timestamp;
  std::vector<LogRecord> log_records;
};
class FinishSpanOption {
 public:
  FinishSpanOption() = default;
  FinishSpanOption(const FinishSpanOption&) = default;
  virtual ~FinishSpanOption() = default;
  virtual void Apply(FinishSpanOptions& options) const noexcept = 0;
};
class Span {
 public:
  virtual ~Span() = default;
  void Finish(std::initializer_list<std::reference_wrapper<const FinishSpanOption>> list = {}) noexcept {
    FinishSpanOptions options;
    options.finish_steady_timestamp = SteadyClock::now();
    for (const auto& opt : list) opt.get().Apply(options);
    FinishWithOptions(options);
  }
  virtual void FinishWithOptions(const FinishSpanOptions& opts) noexcept = 0;
  virtual void SetOperationName(string_view name) noexcept = 0;
  virtual void SetTag(string_view key, const Value& value) noexcept = 0;
  virtual void SetBaggageItem(string_view restricted_key, string_view value) noexcept = 0;
  virtual std::string BaggageItem(string_view restricted_key) const noexcept = 0;
  virtual void Log(std::initializer_list<std::pair<string_view, Value>> fields) noexcept = 0;
  virtual const SpanContext& context() const noexcept = 0;
  virtual const Tracer& tracer() const noexcept = 0;
};
class FinishTimestamp : public FinishSpanOption {
 public:
  explicit FinishTimestamp(SteadyTime t) noexcept : t_(t) {}
  void Apply(FinishSpanOptions& options) const noexcept override { options.finish_steady_timestamp = t_; }

 private:
  SteadyTime t_;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

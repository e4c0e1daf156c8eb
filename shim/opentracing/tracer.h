#pragma once
#include <opentracing/propagation.h>
#include <opentracing/span.h>
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <opentracing/value.h>
#include <opentracing/version.h>
#include <iosfwd>
#include <chrono>
#include <memory>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
struct StartSpanOptions {
  SystemTime start_system_timestamp;
  SteadyTime start_steady_timestamp;
  std::vector<std::pair<SpanReferenceType, const SpanContext*>> references;
  std::vector<std::pair<std::string, Value>> tags;
};
class StartSpanOption {
 public:
  StartSpanOption() = default;
  virtual ~StartSpanOption() = default;
  virtual void Apply(StartSpanOptions& options) const noexcept = 0;
};
class Tracer {
 public:
  virtual ~Tracer() = default;
  std::unique_ptr<Span> StartSpan(
      string_view operation_name,
      std::initializer_list<std::reference_wrapper<const StartSpanOption>> list = {}) const noexcept {
    StartSpanOptions options;
    for (const auto& opt : list) opt.get().Apply(options);
    return StartSpanWithOptions(operation_name, options);
  }
  virtual std::unique_ptr<Span> StartSpanWithOptions(string_view operation_name,
                                                     const StartSpanOptions& options) const noexcept = 0;
  virtual expected<void> Inject(const SpanContext& sc, std::ostream& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const TextMapWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const HTTPHeadersWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const CustomCarrierWriter& writer) const {
    return writer.Inject(*this, sc);
  }
  virtual expected<std::unique_ptr<SpanContext>> Extract(std::istream& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const CustomCarrierReader& reader) const {
    return reader.Extract(*this);
  }
  virtual void Close() noexcept {}
  static std::shared_ptr<Tracer> Global() noexcept { return GlobalRef(); }
  static std::shared_ptr<Tracer> InitGlobal(std::shared_ptr<Tracer> t) noexcept {
    GlobalRef().swap(t);
    return t;
  }

 private:
  static std::shared_ptr<Tracer>& GlobalRef() noexcept {
    static std::shared_ptr<Tracer> t;
    return t;
  }
};
class StartTimestamp : public StartSpanOption {
 public:
  StartTimestamp(SystemTime system_when, SteadyTime steady_when) noexcept
      : system_when_(system_when), steady_when_(steady_when) {}
  StartTimestamp(SystemTime system_when) noexcept : system_when_(system_when) {}
  StartTimestamp(SteadyTime steady_when) noexcept : steady_when_(steady_when) {}
  void Apply(StartSpanOptions& options) const noexcept override {
    options.start_system_timestamp = system_when_;
    options.start_steady_timestamp = steady_when_;
  }

 private:
  SystemTime system_when_;
  SteadyTime steady_when_;
};
class SpanReference : public StartSpanOption {
 public:
  SpanReference(SpanReferenceType type, const SpanContext* referenced) noexcept
      : type_(type), referenced_(referenced) {}
  void Apply(StartSpanOptions& options) const noexcept override {
    if (referenced_) options.references.emplace_back(type_, referenced_);
  }

 private:
  SpanReferenceType type_;
  const SpanContext* referenced_;
};
inline SpanReference ChildOf(const SpanContext* sc) noexcept { return {SpanReferenceType::ChildOfRef, sc}; }
inline SpanReference FollowsFrom(const SpanContext* sc) noexcept {
  return {SpanReferenceType::FollowsFromRef, sc};
}
class SetTag : public StartSpanOption {
 public:
  SetTag(string_view key, const Value& value) : key_(key), value_(value) {}
  void Apply(StartSpanOptions& options) const noexcept override { options.tags.emplace_back(key_, value_); }

 private:
  std::string key_;
  Value value_;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

#pragma once
#include <opentracing/expected.h>
#include <opentracing/string_view.h>
#include <opentracing/version.h>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
enum class SpanReferenceType { ChildOfRef = 1, FollowsFromRef = 2 };
class Tracer;
class SpanContext;

inline const std::error_category& propagation_error_category() {
  class Category : public std::error_category {
   public:
    const char* name() const noexcept override { return "OpenTracingPropagationError"; }
    std::error_condition default_error_condition(int code) const noexcept override {
      switch (code) {
        case 1: return std::make_error_condition(std::errc::invalid_argument);
        case 2: return std::make_error_condition(std::errc::invalid_argument);
        case 3: return std::make_error_condition(std::errc::not_supported);
        case 4: return std::make_error_condition(std::errc::invalid_argument);
        case 5: return std::make_error_condition(std::errc::invalid_argument);
        case 6: return std::make_error_condition(std::errc::not_supported);
        default: return std::error_condition(code, *this);
      }
    }
    std::string message(int code) const override { return "propagation error " + std::to_string(code); }
  };
  static const Category c;
  return c;
}
const std::error_code invalid_span_context_error(1, propagation_error_category());
const std::error_code invalid_carrier_error(2, propagation_error_category());
const std::error_code span_context_corrupted_error(3, propagation_error_category());
const std::error_code key_not_found_error(4, propagation_error_category());
const std::error_code lookup_key_not_supported_error(5, propagation_error_category());

class TextMapReader {
 public:
  virtual ~TextMapReader() = default;
  virtual expected<string_view> LookupKey(string_view /*key*/) const {
    return make_unexpected(lookup_key_not_supported_error);
  }
  virtual expected<void> ForeachKey(
      std::function<expected<void>(string_view key, string_view value)> f) const = 0;
};
class TextMapWriter {
 public:
  virtual ~TextMapWriter() = default;
  virtual expected<void> Set(string_view key, string_view value) const = 0;
};
class HTTPHeadersReader : public TextMapReader {};
class HTTPHeadersWriter : public TextMapWriter {};
class CustomCarrierReader {
 public:
  virtual ~CustomCarrierReader() = default;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const Tracer& tracer) const = 0;
};
class CustomCarrierWriter {
 public:
  virtual ~CustomCarrierWriter() = default;
  virtual expected<void> Inject(const Tracer& tracer, const SpanContext& sc) const = 0;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

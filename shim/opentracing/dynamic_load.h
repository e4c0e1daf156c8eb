#pragma once
#include <opentracing/tracer_factory.h>
#include <opentracing/version.h>
#include <cstring>
typedef int OpenTracingMakeTracerFactoryType(const char* opentracing_version, const char* opentracing_abi_version, const void** error_category, void* error_message, void** tracer_factory);
extern "C" {
extern OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory;
}
#define OPENTRACING_DECLARE_IMPL_FACTORY(X) \
  extern "C" { OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory = X; }
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
inline const std::error_category& dynamic_load_error_category() {
  class Category : public std::error_category {
   public:
    const char* name() const noexcept override { return "OpenTracingDynamicLoadError"; }
    std::string message(int code) const override { return "dynamic load error " + std::to_string(code); }
  };
  static const Category c;
  return c;
}
const std::error_code dynamic_load_failure_error(1, dynamic_load_error_category());
const std::error_code dynamic_load_not_supported_error(2, dynamic_load_error_category());
const std::error_code incompatible_library_versions_error(3, dynamic_load_error_category());
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

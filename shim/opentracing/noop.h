#pragma once
#include <opentracing/tracer.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
inline std::shared_ptr<Tracer> MakeNoopTracer() noexcept { return nullptr; }
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

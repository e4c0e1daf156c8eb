#pragma once
#include <opentracing/string_view.h>
#include <opentracing/version.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace ext {
const string_view span_kind = "span.kind";
const string_view sampling_priority = "sampling.priority";
const string_view error = "error";
const string_view component = "component";
}  // namespace ext
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

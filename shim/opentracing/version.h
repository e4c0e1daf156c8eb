#pragma once
// Stand-in for opentracing-cpp 1.5.1 (API subset lightstep-tracer-cpp uses).
#define OPENTRACING_VERSION "1.5.1"
#define OPENTRACING_ABI_VERSION "2"
#define BEGIN_OPENTRACING_ABI_NAMESPACE inline namespace v2 {
#define END_OPENTRACING_ABI_NAMESPACE }

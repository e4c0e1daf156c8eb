#pragma once
#include <opentracing/symbols.h>
#include <opentracing/version.h>
#include <opentracing/expected.h>
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class string_view {
 public:
  typedef size_t size_type;
  static constexpr size_type npos = static_cast<size_type>(-1);
  string_view() noexcept : length_(0), data_(nullptr) {}
  string_view(const char* c_str) noexcept
      : length_(std::strlen(c_str)), data_(c_str) {}
  string_view(const char* data, size_type length) noexcept
      : length_(length), data_(data) {}
  string_view(const std::string& str) noexcept
      : length_(str.length()), data_(str.c_str()) {}
  operator std::string() const { return std::string(data_, length_); }
  const char* data() const noexcept { return data_; }
  bool empty() const noexcept { return length_ == 0; }
  size_type length() const noexcept { return length_; }
  size_type size() const noexcept { return length_; }
  const char* begin() const noexcept { return data(); }
  const char* end() const noexcept { return data() + length(); }
  const char& operator[](std::size_t i) const noexcept { return *(data() + i); }

 private:
  size_type length_;
  const char* data_;
};
inline bool operator==(string_view lhs, string_view rhs) noexcept {
  return lhs.length() == rhs.length() &&
         std::equal(lhs.data(), lhs.data() + lhs.length(), rhs.data());
}
inline bool operator==(string_view lhs, const std::string& rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const std::string& lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator==(string_view lhs, const char* rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const char* lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator!=(string_view lhs, string_view rhs) noexcept { return !(lhs == rhs); }
inline bool operator!=(string_view lhs, const std::string& rhs) noexcept { return !(lhs == rhs); }
inline bool operator!=(const std::string& lhs, string_view rhs) noexcept { return !(lhs == rhs); }
inline bool operator!=(string_view lhs, const char* rhs) noexcept { return !(lhs == rhs); }
inline bool operator!=(const char* lhs, string_view rhs) noexcept { return !(lhs == rhs); }
inline std::ostream& operator<<(std::ostream& os, string_view ref) {
  return os.write(ref.data(), static_cast<std::streamsize>(ref.length()));
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

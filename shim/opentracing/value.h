#pragma once
#include <opentracing/string_view.h>
#include <opentracing/version.h>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Value;
typedef std::unordered_map<std::string, Value> Dictionary;
typedef std::vector<Value> Values;
// Same alternatives as opentracing-cpp's
// variant<bool, double, int64_t, uint64_t, std::string, nullptr_t,
//         const char*, recursive_wrapper<Values>, recursive_wrapper<Dictionary>>
class Value {
 public:
  Value() noexcept : kind_(0), b_(false) {}
  Value(bool x) noexcept : kind_(0), b_(x) {}
  Value(double x) noexcept : kind_(1), d_(x) {}
  Value(float x) noexcept : kind_(1), d_(x) {}
  template <typename T, typename std::enable_if<std::is_signed<T>::value && std::is_integral<T>::value && !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T x) noexcept : kind_(2), i_(x) {}
  template <typename T, typename std::enable_if<std::is_unsigned<T>::value && std::is_integral<T>::value && !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T x) noexcept : kind_(3), u_(x) {}
  Value(const char* s) noexcept : kind_(6), c_(s) {}
  Value(std::nullptr_t) noexcept : kind_(5), c_(nullptr) {}
  Value(const std::string& s) : kind_(4), s_(std::make_shared<std::string>(s)) {}
  Value(std::string&& s) : kind_(4), s_(std::make_shared<std::string>(std::move(s))) {}
  Value(string_view s) : kind_(4), s_(std::make_shared<std::string>(s)) {}
  Value(const Values& v);
  Value(Values&& v);
  Value(const Dictionary& v);
  Value(Dictionary&& v);
  int kind() const { return kind_; }
  template <typename R, typename F> R visit(F& f) const;
  friend bool operator==(const Value& a, const Value& b) {
    if (a.kind_ != b.kind_) return false;
    switch (a.kind_) {
      case 0: return a.b_ == b.b_;
      case 1: return a.d_ == b.d_;
      case 2: return a.i_ == b.i_;
      case 3: return a.u_ == b.u_;
      case 4: return *a.s_ == *b.s_;
      case 5: return true;
      case 6: return a.c_ == b.c_;
      case 7: return *a.v_ == *b.v_;
      default: return *a.m_ == *b.m_;
    }
  }
  friend bool operator!=(const Value& a, const Value& b) { return !(a == b); }

 private:
  int kind_;
  union { bool b_; double d_; int64_t i_; uint64_t u_; const char* c_; };
  std::shared_ptr<std::string> s_;
  std::shared_ptr<Values> v_;
  std::shared_ptr<Dictionary> m_;
};
inline Value::Value(const Values& v) : kind_(7), u_(0), v_(std::make_shared<Values>(v)) {}
inline Value::Value(Values&& v) : kind_(7), u_(0), v_(std::make_shared<Values>(std::move(v))) {}
inline Value::Value(const Dictionary& v) : kind_(8), u_(0), m_(std::make_shared<Dictionary>(v)) {}
inline Value::Value(Dictionary&& v) : kind_(8), u_(0), m_(std::make_shared<Dictionary>(std::move(v))) {}
template <typename R, typename F>
R Value::visit(F& f) const {
  switch (kind_) {
    case 0: return f(b_);
    case 1: return f(d_);
    case 2: return f(i_);
    case 3: return f(u_);
    case 4: return f(static_cast<const std::string&>(*s_));
    case 5: return f(nullptr);
    case 6: return f(c_);
    case 7: return f(static_cast<const Values&>(*v_));
    default: return f(static_cast<const Dictionary&>(*m_));
  }
}
template <typename F>
auto apply_visitor(F&& f, const Value& v) -> decltype(f(true)) {
  return v.visit<decltype(f(true))>(f);
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

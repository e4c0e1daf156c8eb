#pragma once
#include <opentracing/version.h>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
template <typename E = std::error_code>
class unexpected_type {
 public:
  unexpected_type() = delete;
  explicit unexpected_type(E const& e) : error_(e) {}
  explicit unexpected_type(E&& e) : error_(std::move(e)) {}
  E const& value() const { return error_; }

 private:
  E error_;
};
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& v) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(v));
}
class bad_expected_access : public std::exception {
 public:
  const char* what() const noexcept override { return "bad expected access"; }
};
template <typename T, typename E = std::error_code>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;
  expected() : has_(true) { new (&v_) T(); }
  expected(const expected& o) : has_(o.has_) {
    if (has_) new (&v_) T(o.v_); else new (&e_) E(o.e_);
  }
  expected(expected&& o) : has_(o.has_) {
    if (has_) new (&v_) T(std::move(o.v_)); else new (&e_) E(std::move(o.e_));
  }
  expected(const T& v) : has_(true) { new (&v_) T(v); }
  expected(T&& v) : has_(true) { new (&v_) T(std::move(v)); }
  expected(unexpected_type<E> const& u) : has_(false) { new (&e_) E(u.value()); }
  template <class U, typename = typename std::enable_if<std::is_constructible<E, U>::value && !std::is_same<U, E>::value>::type>
  expected(unexpected_type<U> const& u) : has_(false) { new (&e_) E(u.value()); }
  ~expected() { if (has_) v_.~T(); else e_.~E(); }
  expected& operator=(expected o) {
    this->~expected();
    new (this) expected(std::move(o));
    return *this;
  }
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  const T& value() const { if (!has_) throw bad_expected_access{}; return v_; }
  T& value() { if (!has_) throw bad_expected_access{}; return v_; }
  const T& operator*() const { return v_; }
  T& operator*() { return v_; }
  const T* operator->() const { return &v_; }
  T* operator->() { return &v_; }
  const E& error() const { return e_; }
  bool valid() const noexcept { return has_; }

 private:
  bool has_;
  union { T v_; E e_; };
};
template <typename E>
class expected<void, E> {
 public:
  expected() : has_(true) {}
  expected(unexpected_type<E> const& u) : has_(false), e_(u.value()) {}
  template <class U, typename = typename std::enable_if<std::is_constructible<E, U>::value && !std::is_same<U, E>::value>::type>
  expected(unexpected_type<U> const& u) : has_(false), e_(u.value()) {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  const E& error() const { return e_; }

 private:
  bool has_;
  E e_;
};
// opentracing-cpp compares errors through std::error_code
template <typename T, typename E>
bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
  return x ? y ? *x == *y : false : y ? false : x.error() == y.error();
}
template <typename T, typename E>
bool operator==(expected<T, E> const& x, unexpected_type<E> const& y) {
  return !x && x.error() == y.value();
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing

// Stand-in for Boost.Expected (never part of Boost, absent from this sandbox).  Only the parts
// MaidSafe-Common and its tests use: value/error storage, operator bool, *, ->, value(), error(),
// value_or(), valid(), make_unexpected and converting construction from unexpected<E>.
#ifndef VERIF_SHIM_BOOST_EXPECTED_HPP_
#define VERIF_SHIM_BOOST_EXPECTED_HPP_
#include <memory>
#include <stdexcept>
#include <utility>
#include <type_traits>
#include <exception>
#include "boost/optional.hpp"
#include "boost/throw_exception.hpp"
#include "boost/exception/all.hpp"

namespace boost {

template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(E e) : e_(std::move(e)) {}
  const E& value() const { return e_; }
 private:
  E e_;
};
template <typename E> using unexpected = unexpected_type<E>;
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}

template <typename T, typename E = std::exception_ptr>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;
  expected() : v_(T()), e_() {}
  expected(const T& v) : v_(v), e_() {}
  expected(T&& v) : v_(std::move(v)), e_() {}
  template <typename G>
  expected(const unexpected_type<G>& u) : v_(), e_(E(u.value())) {}
  bool valid() const { return static_cast<bool>(v_); }
  bool has_value() const { return valid(); }
  explicit operator bool() const { return valid(); }
  T& operator*() { return *v_; }
  const T& operator*() const { return *v_; }
  T* operator->() { return &*v_; }
  const T* operator->() const { return &*v_; }
  T& value() { if (!v_) boost::throw_exception(*e_); return *v_; }
  const T& value() const { if (!v_) boost::throw_exception(*e_); return *v_; }
  template <typename U> T value_or(U&& u) const { return v_ ? *v_ : T(std::forward<U>(u)); }
  const E& error() const { return *e_; }
 private:
  boost::optional<T> v_;
  boost::optional<E> e_;
};

template <typename E>
class expected<void, E> {
 public:
  typedef void value_type;
  typedef E error_type;
  expected() : e_() {}
  template <typename G>
  expected(const unexpected_type<G>& u) : e_(E(u.value())) {}
  bool valid() const { return !e_; }
  bool has_value() const { return valid(); }
  explicit operator bool() const { return valid(); }
  void value() const { if (e_) boost::throw_exception(*e_); }
  const E& error() const { return *e_; }
 private:
  boost::optional<E> e_;
};

}  // namespace boost
#endif

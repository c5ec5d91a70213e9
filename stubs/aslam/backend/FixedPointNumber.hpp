#pragma once
#include <cmath>
#include <cstdint>
#include <type_traits>
namespace aslam { namespace backend {
template <typename I, std::uintmax_t D> class FixedPointNumber {
 public:
  typedef I Integer;
  FixedPointNumber() : _n(0) {}
  template <typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> FixedPointNumber(T n) : _n(n) {}
  FixedPointNumber(double v) : _n((I)std::llround(v * (double)D)) {}
  I getNumerator() const { return _n; }
  static constexpr std::uintmax_t getDivider() { return D; }
  explicit operator double() const { return (double)_n / (double)D; }
  FixedPointNumber operator+(const FixedPointNumber& o) const { return FixedPointNumber(_n + o._n); }
  FixedPointNumber operator-(const FixedPointNumber& o) const { return FixedPointNumber(_n - o._n); }
  FixedPointNumber operator-() const { return FixedPointNumber(-_n); }
  bool operator==(const FixedPointNumber& o) const { return _n == o._n; }
 private:
  I _n;
};
} }

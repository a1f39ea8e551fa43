// Parameter types and access to their elements in storage order.
#pragma once
#include "gsys.h"

// A parameter type of our own: two scalars.
template <typename T = double> struct Pose {
  using Scalar = T;
  static constexpr Index Dims = 2;
  T a, b;
  Pose() : a(0), b(0) {}
  Pose(const T &a_, const T &b_) : a(a_), b(b_) {}
  template <typename T2> Pose<T2> cast() const { return Pose<T2>(T2(a), T2(b)); }
  Pose &operator+=(const auto &d) { a += d[0]; b += d[1]; return *this; }
};

// Access to the i-th parameter in storage order.
template <typename X> static auto nested(const X &x, int i) {
  size_t k = 0;
  while (i >= int(x[k].size())) i -= int(x[k++].size());
  return x[k].data()[i];
}
template <typename X> static auto par(const X &x, int i) {
  if constexpr (requires { x.a; x.b; }) return i ? x.b : x.a;
  else if constexpr (requires { x.data(); x.rows(); }) return x.data()[i];
  else if constexpr (requires { x[0].data(); x[0].rows(); }) return nested(x, i);
  else if constexpr (requires { x[i]; x.size(); }) return x[i];
  else return x;
}
template <typename X> static void set(X &x, int i, double v) {
  if constexpr (requires { x.a; x.b; }) (i ? x.b : x.a) = v;
  else if constexpr (requires { x.data(); x.rows(); }) x.data()[i] = v;
  else if constexpr (requires { x[0].data(); x[0].rows(); }) {
    size_t k = 0;
    while (i >= int(x[k].size())) i -= int(x[k++].size());
    x[k].data()[i] = v;
  } else if constexpr (requires { x[i]; x.size(); }) x[i] = v;
  else x = v;
}

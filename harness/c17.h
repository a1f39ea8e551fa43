// Quadratic residuals in several shapes.
#pragma once
#include "pars.h"

// Type of the coefficients of a number or a differentiation number.
template <typename T> struct scalar { using type = T; };
template <typename T> requires requires { typename T::Scalar; } struct scalar<T> { using type = typename T::Scalar; };
// r_k = c + sum_i l_i p_i + q p_0 p_last + s p_last^2
template <int N, int R> struct Poly {
  double c[R], l[R][N], q[R], s[R], x[N];
  Poly(bool all = true, bool bounded = false) {
    const auto vf_real = [&](const char *n) { return bounded ? vf_range(n, -10, 10) : ::vf_real(n); };
    for (int k = 0; k < R; ++k) {
      c[k] = vf_real("c"); q[k] = all ? vf_real("q") : 1 - k; s[k] = all ? vf_real("s") : 0.5 * k;
      for (int i = 0; i < N; ++i) l[k][i] = all ? vf_real("l") : 1 + k * 2 + i * (k + 1);
    }
    for (int i = 0; i < N; ++i) x[i] = vf_real("x");
  }
  template <typename X> auto res(const X &p, int k) const {
    using T = std::decay_t<decltype(par(p, 0))>;
    using C = typename scalar<T>::type;
    T r = par(p, 0) * C(l[k][0]);
    for (int i = 1; i < N; ++i) r = r + par(p, i) * C(l[k][i]);
    r = r + par(p, 0) * par(p, N - 1) * C(q[k]);
    r += par(p, N - 1) * par(p, N - 1) * C(s[k]);
    return T(r + C(c[k]));
  }
  double value(const double *p, int k) const {
    double r = c[k] + q[k] * p[0] * p[N - 1] + s[k] * p[N - 1] * p[N - 1];
    for (int i = 0; i < N; ++i) r += l[k][i] * p[i];
    return r;
  }
  double deriv(const double *p, int k, int i) const {
    return l[k][i] + (i == 0 ? q[k] * p[N - 1] : 0) + (i == N - 1 ? q[k] * p[0] + 2 * s[k] * p[N - 1] : 0);
  }
  template <typename X> void init(X &p) const { for (int i = 0; i < N; ++i) set(p, i, x[i]); }
  void jac(const auto &r, const auto &J) const {
    vf_assert(J.rows() == R && J.cols() == N && r.size() == R, "size of the Jacobian");
    for (int k = 0; k < R; ++k) {
      vf_eq(r[k], value(x, k), "residual");
      for (int i = 0; i < N; ++i) vf_eq(J(k, i), deriv(x, k, i), "Jacobian");
    }
  }
};
// Shapes of residuals.
enum { Scal, Stat, Dyn, Mat, DynMat };
template <int S, int R, typename P, typename X> static auto shape(const P &f, const X &x) {
  using T = std::decay_t<decltype(f.res(x, 0))>;
  if constexpr (S == Scal) return f.res(x, 0);
  else {
    using M = std::conditional_t<S == Stat, Matrix<T, R, 1>, std::conditional_t<S == Dyn, Matrix<T, Dynamic, 1>, std::conditional_t<S == Mat, Matrix<T, R / 2, 2>, Matrix<T, Dynamic, Dynamic>>>>;
    M m;
    if constexpr (S == Dyn) m.resize(R);
    if constexpr (S == DynMat) m.resize(R / 2, 2);
    for (int k = 0; k < R; ++k) m.data()[k] = f.res(x, k);
    return m;
  }
}

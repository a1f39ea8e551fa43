// BOUND: residuals of size 1..3 (whitening and norms), covariances given by their upper triangle, static and dynamic; scalar variances above 1e-3
// BOUND: Jacobians of plain norms are checked for norms above 1e-3 (the library guards the division near zero)
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/losses/mahalanobis.h>
using namespace tinyopt;
using namespace tinyopt::losses;

// A definite covariance; the lower triangle holds unrelated values.
template <int N, int D> struct Cov {
  Matrix<double, D, D> C{N, N};
  double c(int i, int j) const { return i <= j ? C(i, j) : C(j, i); }
  Cov() {
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) C(i, j) = vf_real(i <= j ? "c" : "lower");
    if constexpr (N <= 2) {
      vf_assume(C(0, 0) > 0);
      if constexpr (N == 2) vf_assume(C(0, 0) * C(1, 1) - C(0, 1) * C(0, 1) > 0);
    } else {
      double l[N][N] = {};
      for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) l[i][j] = i == j ? vf_pos("l") : vf_real("l");
      for (int j = 0; j < N; ++j)
        for (int i = 0; i <= j; ++i) { double r = 0; for (int k = 0; k <= i; ++k) r += l[i][k] * l[j][k]; C(i, j) = r; }
    }
  }
};
// x = C*y, so that C^-1*x = y and x^T C^-1 x = x^T y without writing down an inverse.
template <int N, int D> static void cov() {
  Cov<N, D> k;
  Vector<double, D> x(N);
  double y[N], n2 = 0;
  for (int i = 0; i < N; ++i) y[i] = vf_real("y");
  for (int i = 0; i < N; ++i) { double r = 0; for (int j = 0; j < N; ++j) r += k.c(i, j) * y[j]; x[i] = r; }
  for (int i = 0; i < N; ++i) n2 += x[i] * y[i];
  vf_eq(MahaSquaredNorm(x, k.C), n2, "squared norm (covariance)");
  const bool scale = vf_bool("add_scale");
  const double f = scale ? 2 : 1;
  {
    auto [v, J] = MahaSquaredNorm(x, k.C, true, scale);
    vf_eq(v, n2, "squared norm with Jacobian (covariance)");
    vf_assert(J.rows() == 1 && J.cols() == N, "shape of the Jacobian (covariance)");
    for (int i = 0; i < N; ++i) vf_eq(J(0, i), f * y[i], "Jacobian of the squared norm (covariance)");
  }
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [v, J] = MahaSquaredNorm(x, k.C, Jx, scale);
  vf_eq(v, n2, "squared norm with chained Jacobian (covariance)");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < N; ++i) e += f * y[i] * Jx(i, c);
    vf_eq(J(0, c), e, "chained Jacobian of the squared norm (covariance)");
  }
}
template <int N, int D> static void covnorm() {
  Cov<N, D> k;
  Vector<double, D> x(N);
  double y[N], n2 = 0;
  for (int i = 0; i < N; ++i) y[i] = vf_real("y");
  for (int i = 0; i < N; ++i) { double r = 0; for (int j = 0; j < N; ++j) r += k.c(i, j) * y[j]; x[i] = r; }
  for (int i = 0; i < N; ++i) n2 += x[i] * y[i];
  vf_assume(n2 > 1e-6);
  const double n = MahaNorm(x, k.C);
  vf_le(0, n, "norm is not negative (covariance)");
  vf_eq(n * n, n2, "norm (covariance)");
  auto [v, J] = MahaNorm(x, k.C, true);
  vf_eq(v, n, "norm with Jacobian (covariance)");
  for (int i = 0; i < N; ++i) vf_eq(J(0, i) * n, y[i], "Jacobian of the norm (covariance)");
}
template <int N, int D> static void vars() {
  Vector<double, D> x(N), s(N);
  vf_fill(x, "x");
  double n2 = 0;
  for (int i = 0; i < N; ++i) { s[i] = vf_pos("var"); n2 += x[i] * x[i] / s[i]; }
  vf_eq(MahaSquaredNorm(x, s), n2, "squared norm (variances)");
  const bool scale = vf_bool("add_scale");
  const double f = scale ? 2 : 1;
  auto [v, J] = MahaSquaredNorm(x, s, true, scale);
  vf_eq(v, n2, "squared norm with Jacobian (variances)");
  for (int i = 0; i < N; ++i) vf_eq(J(0, i), f * x[i] / s[i], "Jacobian of the squared norm (variances)");
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [vc, Jc] = MahaSquaredNorm(x, s, Jx, scale);
  vf_eq(vc, n2, "squared norm with chained Jacobian (variances)");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < N; ++i) e += f * x[i] / s[i] * Jx(i, c);
    vf_eq(Jc(0, c), e, "chained Jacobian of the squared norm (variances)");
  }
  vf_assume(n2 > 1e-6);
  const double n = MahaNorm(x, s);
  vf_le(0, n, "norm is not negative (variances)");
  vf_eq(n * n, n2, "norm (variances)");
  auto [vn, Jn] = MahaNorm(x, s, true);
  vf_eq(vn, n, "norm with Jacobian (variances)");
  for (int i = 0; i < N; ++i) vf_eq(Jn(0, i) * n, x[i] / s[i], "Jacobian of the norm (variances)");
  auto [vm, Jm] = MahaNorm(x, s, Jx);
  vf_eq(vm, n, "norm with chained Jacobian (variances)");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < N; ++i) e += x[i] / s[i] * Jx(i, c);
    vf_eq(Jm(0, c) * n, e, "chained Jacobian of the norm (variances)");
  }
}
// Variances in a dynamically sized matrix with one column.
template <int N, int D> static void dynvars() {
  Vector<double, D> x(N);
  MatX s(N, 1);
  vf_fill(x, "x");
  double n2 = 0;
  for (int i = 0; i < N; ++i) { s(i, 0) = vf_pos("var"); n2 += x[i] * x[i] / s(i, 0); }
  const bool scale = vf_bool("add_scale");
  const double f = scale ? 2 : 1;
  vf_eq(MahaSquaredNorm(x, s), n2, "squared norm (variances in a matrix)");
  auto [v, J] = MahaSquaredNorm(x, s, true, scale);
  vf_eq(v, n2, "squared norm with Jacobian (variances in a matrix)");
  for (int i = 0; i < N; ++i) vf_eq(J(0, i), f * x[i] / s(i, 0), "Jacobian of the squared norm (variances in a matrix)");
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [vc, Jc] = MahaSquaredNorm(x, s, Jx, scale);
  vf_eq(vc, n2, "squared norm with chained Jacobian (variances in a matrix)");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < N; ++i) e += f * x[i] / s(i, 0) * Jx(i, c);
    vf_eq(Jc(0, c), e, "chained Jacobian of the squared norm (variances in a matrix)");
  }
  vf_assume(n2 > 1e-6);
  const double n = MahaNorm(x, s);
  vf_le(0, n, "norm is not negative (variances in a matrix)");
  vf_eq(n * n, n2, "norm (variances in a matrix)");
  auto [vn, Jn] = MahaNorm(x, s, true);
  vf_eq(vn, n, "norm with Jacobian (variances in a matrix)");
  for (int i = 0; i < N; ++i) vf_eq(Jn(0, i) * n, x[i] / s(i, 0), "Jacobian of the norm (variances in a matrix)");
}
template <typename T> static void scalar() {
  const T x = vf_real("x"), s = vf_range("var", 1e-3, 1e6);
  const double n2 = double(x) * x / s;
  const bool scale = vf_bool("add_scale");
  vf_eq(MahaSquaredNorm(x, s), n2, "squared norm (scalar)");
  auto [v, J] = MahaSquaredNorm(x, s, true, scale);
  vf_eq(v, n2, "squared norm with Jacobian (scalar)");
  vf_eq(J, (scale ? 2.0 : 1.0) * x / s, "Jacobian of the squared norm (scalar)");
  const T j = vf_real("j");
  auto [vc, Jc] = MahaSquaredNorm(x, s, j, scale);
  vf_eq(vc, n2, "squared norm with chained Jacobian (scalar)");
  vf_eq(Jc, (scale ? 2.0 : 1.0) * x / s * j, "chained Jacobian of the squared norm (scalar)");
  vf_assume(n2 > 1e-6);
  const double n = MahaNorm(x, s);
  vf_le(0, n, "norm is not negative (scalar)");
  vf_eq(n * n, n2, "norm (scalar)");
  auto [vn, Jn] = MahaNorm(x, s, true);
  vf_eq(vn, n, "norm with Jacobian (scalar)");
  vf_eq(Jn * n, double(x) / s, "Jacobian of the norm (scalar)");
}
// VF: h_cov cases=5
extern "C" void h_cov() {
  switch (vf_case()) {
    case 0: cov<2, 2>(); break;
    case 1: cov<2, Dynamic>(); break;
    case 2: cov<3, 3>(); break;
    case 3: cov<1, 1>(); break;
    default: cov<3, Dynamic>(); break;
  }
  vf_reach("cov");
}
// VF: h_covnorm cases=2
extern "C" void h_covnorm() {
  if (vf_case()) covnorm<2, Dynamic>(); else covnorm<2, 2>();
  vf_reach("covnorm");
}
// VF: h_vars cases=9
extern "C" void h_vars() {
  switch (vf_case()) {
    case 0: vars<1, 1>(); break;
    case 1: vars<2, 2>(); break;
    case 2: vars<3, 3>(); break;
    case 3: vars<2, Dynamic>(); break;
    case 4: vars<3, Dynamic>(); break;
    case 5: dynvars<1, Dynamic>(); break;
    case 6: dynvars<2, Dynamic>(); break;
    case 7: dynvars<3, Dynamic>(); break;
    default: dynvars<3, 3>(); break;
  }
  vf_reach("vars");
}
// VF: h_scalar cases=2
extern "C" void h_scalar() {
  if (vf_case()) scalar<float>(); else scalar<double>();
  vf_reach("scalar");
}
// VF: h_reject cases=4
extern "C" void h_reject() {
  Vec2 x;
  Mat2 C;
  vf_fill(x, "x");
  vf_fill(C, "c");
  if (vf_case() % 2) {  // singular
    const double a = vf_real("a"), b = vf_real("b");
    C(0, 0) = a * a; C(0, 1) = a * b; C(1, 1) = b * b;
  } else {  // indefinite
    const double a = vf_real("a"), b = vf_real("b");
    vf_assume(a * a * C(0, 0) + 2 * a * b * C(0, 1) + b * b * C(1, 1) < 0);
  }
  bool thrown = false;
  try {
    if (vf_case() < 2) MahaSquaredNorm(x, C); else MahaSquaredNorm(x, C, true);
  } catch (const std::invalid_argument &) { thrown = true; }
  vf_assert(thrown, "a covariance that is not invertible is rejected");
  vf_reach("reject");
}

// Whitening: |w|^2 = x^T C^-1 x, with Jacobian W such that w = W*x.
template <int N, int D> static void whiten() {
  Cov<N, D> k;
  Vector<double, D> x(N);
  double y[N], n2 = 0, w2 = 0;
  for (int i = 0; i < N; ++i) y[i] = vf_real("y");
  for (int i = 0; i < N; ++i) { double r = 0; for (int j = 0; j < N; ++j) r += k.c(i, j) * y[j]; x[i] = r; }
  for (int i = 0; i < N; ++i) n2 += x[i] * y[i];
  const auto w = MahaWhitened(x, k.C);
  vf_assert(w.size() == N, "size of the whitened residuals");
  for (int i = 0; i < N; ++i) w2 += w[i] * w[i];
  vf_eq(w2, n2, "whitened residuals have the same squared norm");
  auto [wj, W] = MahaWhitened(x, k.C, true);
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [wc, Wc] = MahaWhitened(x, k.C, Jx);
  vf_assert(W.rows() == N && W.cols() == N && Wc.rows() == N && Wc.cols() == 2, "shape of the whitening Jacobian");
  for (int i = 0; i < N; ++i) {
    vf_eq(wj[i], w[i], "whitened residuals with Jacobian");
    vf_eq(wc[i], w[i], "whitened residuals with chained Jacobian");
    double r = 0;
    for (int j = 0; j < N; ++j) r += W(i, j) * x[j];
    vf_eq(r, w[i], "whitening is linear with its Jacobian");
    for (int c = 0; c < 2; ++c) {
      double e = 0;
      for (int j = 0; j < N; ++j) e += W(i, j) * Jx(j, c);
      vf_eq(Wc(i, c), e, "chained whitening Jacobian");
    }
  }
  // W does not depend on x and W^T W = C^-1: (W^T W) C = I
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double e = 0;
      for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) e += W(a, i) * W(a, b) * k.c(b, j);
      vf_eq(e, i == j, "whitening Jacobian squares to the inverse covariance");
    }
}
template <int N, int D> static void whiten_dev() {
  Vector<double, D> x(N), s(N);
  vf_fill(x, "x");
  for (int i = 0; i < N; ++i) s[i] = vf_pos("dev");
  const auto w = MahaWhitened(x, s);
  auto [wj, W] = MahaWhitened(x, s, true);
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [wc, Wc] = MahaWhitened(x, s, Jx);
  vf_assert(w.size() == N && W.rows() == N && W.cols() == N && Wc.cols() == 2, "shapes (deviations)");
  for (int i = 0; i < N; ++i) {
    vf_eq(w[i] * s[i], x[i], "whitened residuals (deviations)");
    vf_eq(wj[i] * s[i], x[i], "whitened residuals with Jacobian (deviations)");
    vf_eq(wc[i] * s[i], x[i], "whitened residuals with chained Jacobian (deviations)");
    for (int j = 0; j < N; ++j) vf_eq(W(i, j) * s[i], i == j, "whitening Jacobian (deviations)");
    for (int c = 0; c < 2; ++c) vf_eq(Wc(i, c) * s[i], Jx(i, c), "chained whitening Jacobian (deviations)");
  }
}
template <int N, int D> static void whiten_iso() {
  Vector<double, D> x(N);
  vf_fill(x, "x");
  const double s = vf_pos("dev");
  const auto w = MahaWhitened(x, s);
  auto [wj, W] = MahaWhitened(x, s, true);
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(Jx, "Jx");
  auto [wc, Wc] = MahaWhitened(x, s, Jx);
  vf_eq(W * s, 1, "whitening Jacobian (isotropic)");
  for (int i = 0; i < N; ++i) {
    vf_eq(w[i] * s, x[i], "whitened residuals (isotropic)");
    vf_eq(wj[i] * s, x[i], "whitened residuals with Jacobian (isotropic)");
    vf_eq(wc[i] * s, x[i], "whitened residuals with chained Jacobian (isotropic)");
    for (int c = 0; c < 2; ++c) vf_eq(Wc(i, c) * s, Jx(i, c), "chained whitening Jacobian (isotropic)");
  }
}
// VF: h_whiten cases=3
extern "C" void h_whiten() {
  switch (vf_case()) {
    case 0: whiten<2, 2>(); break;
    case 1: whiten<3, 3>(); break;
    default: whiten<2, Dynamic>(); break;
  }
  vf_reach("whiten");
}
// VF: h_whiten_dev cases=5
extern "C" void h_whiten_dev() {
  switch (vf_case()) {
    case 0: whiten_dev<2, 2>(); break;
    case 1: whiten_dev<3, 3>(); break;
    case 2: whiten_dev<2, Dynamic>(); break;
    case 3: whiten_iso<2, 2>(); break;
    default: whiten_iso<2, Dynamic>(); break;
  }
  vf_reach("whiten dev");
}
// Information matrix given by its upper factor: only the upper triangle counts.
template <int N, int D> static void info() {
  Vector<double, D> x(N);
  Matrix<double, D, D> U(N, N);
  Matrix<double, D, 2> Jx(N, 2);
  vf_fill(x, "x");
  vf_fill(U, "U");
  vf_fill(Jx, "Jx");
  const auto w = MahaWhitenedInfoU(x, U);
  auto [wj, W] = MahaWhitenedInfoU(x, U, true);
  auto [wc, Wc] = MahaWhitenedInfoU(x, U, Jx);
  vf_assert(w.size() == N && W.rows() == N && W.cols() == N && Wc.cols() == 2, "shapes (information)");
  for (int i = 0; i < N; ++i) {
    double r = 0;
    for (int j = i; j < N; ++j) r += U(i, j) * x[j];
    vf_eq(w[i], r, "whitened residuals (information)");
    vf_eq(wj[i], r, "whitened residuals with Jacobian (information)");
    vf_eq(wc[i], r, "whitened residuals with chained Jacobian (information)");
    for (int j = 0; j < N; ++j) vf_eq(W(i, j), j >= i ? U(i, j) : 0, "whitening Jacobian (information)");
    for (int c = 0; c < 2; ++c) {
      double e = 0;
      for (int j = i; j < N; ++j) e += U(i, j) * Jx(j, c);
      vf_eq(Wc(i, c), e, "chained whitening Jacobian (information)");
    }
  }
}
// VF: h_info cases=3
extern "C" void h_info() {
  switch (vf_case()) {
    case 0: info<2, 2>(); break;
    case 1: info<3, 3>(); break;
    default: info<2, Dynamic>(); break;
  }
  vf_reach("info");
}

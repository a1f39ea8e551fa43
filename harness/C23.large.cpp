// BOUND: residuals of size 4..6 (thorough: 7): a fixed covariance but for one entry of its factorisation; any residuals; any variances, deviations and information factors
#include "vf.h"
#include "large.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/losses/mahalanobis.h>
using namespace tinyopt;
using namespace tinyopt::losses;

template <int N, int D> static void cov(int at) {
  double h[N][N], y[N], x2 = 0;
  large(h, at, vf_range("d", 0.1, 10));
  Matrix<double, D, D> C(N, N);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) C(i, j) = i <= j ? h[i][j] : 77 + i - j;
  Vector<double, D> x(N);
  for (int i = 0; i < N; ++i) y[i] = vf_real("y");
  for (int i = 0; i < N; ++i) { double r = 0; for (int j = 0; j < N; ++j) r += h[i][j] * y[j]; x[i] = r; }
  for (int i = 0; i < N; ++i) x2 += x[i] * y[i];
  vf_eq(MahaSquaredNorm(x, C), x2, "squared norm (large covariance)");
  const bool scale = vf_bool("add_scale");
  const double f = scale ? 2 : 1;
  auto [v, J] = MahaSquaredNorm(x, C, true, scale);
  vf_eq(v, x2, "squared norm with Jacobian (large covariance)");
  vf_assert(J.rows() == 1 && J.cols() == N, "shape of the Jacobian (large covariance)");
  for (int i = 0; i < N; ++i) vf_eq(J(0, i), f * y[i], "Jacobian of the squared norm (large covariance)");
  Matrix<double, D, 3> Jx(N, 3);
  vf_fill(Jx, "Jx");
  auto [vc, Jc] = MahaSquaredNorm(x, C, Jx, scale);
  vf_eq(vc, x2, "squared norm with chained Jacobian (large covariance)");
  vf_assert(Jc.rows() == 1 && Jc.cols() == 3, "shape of the chained Jacobian (large covariance)");
  for (int c = 0; c < 3; ++c) {
    double e = 0;
    for (int i = 0; i < N; ++i) e += f * y[i] * Jx(i, c);
    vf_eq(Jc(0, c), e, "chained Jacobian of the squared norm (large covariance)");
  }
}
// VF: h_large_cov cases=3 thorough.cases=4
extern "C" void h_large_cov() {
  switch (vf_case()) {
    case 0: cov<4, 4>(2); break;
    case 1: cov<5, Dynamic>(3); break;
    case 2: cov<6, 6>(5); break;
    default: cov<7, Dynamic>(1); break;
  }
  vf_reach("cov");
}
template <int N, int D> static void diag() {
  Vector<double, D> x(N), s(N);
  vf_fill(x, "x");
  double n2 = 0;
  for (int i = 0; i < N; ++i) { s[i] = i % 2 ? vf_pos("var") : 0.25 + i; n2 += x[i] * x[i] / s[i]; }
  Matrix<double, D, 3> Jx(N, 3);
  vf_fill(Jx, "Jx");
  const bool scale = vf_bool("add_scale");
  const double f = scale ? 2 : 1;
  {
    vf_eq(MahaSquaredNorm(x, s), n2, "squared norm (many variances)");
    auto [v, J] = MahaSquaredNorm(x, s, true, scale);
    auto [vc, Jc] = MahaSquaredNorm(x, s, Jx, scale);
    vf_eq(v, n2, "squared norm with Jacobian (many variances)");
    vf_eq(vc, n2, "squared norm with chained Jacobian (many variances)");
    vf_assert(J.cols() == N && Jc.cols() == 3, "shapes (many variances)");
    for (int i = 0; i < N; ++i) vf_eq(J(0, i), f * x[i] / s[i], "Jacobian of the squared norm (many variances)");
    for (int c = 0; c < 3; ++c) {
      double e = 0;
      for (int i = 0; i < N; ++i) e += f * x[i] / s[i] * Jx(i, c);
      vf_eq(Jc(0, c), e, "chained Jacobian of the squared norm (many variances)");
    }
  }
  const auto w = MahaWhitened(x, s);
  auto [wj, W] = MahaWhitened(x, s, true);
  auto [wc, Wc] = MahaWhitened(x, s, Jx);
  vf_assert(w.size() == N && W.rows() == N && W.cols() == N && Wc.rows() == N && Wc.cols() == 3, "shapes (many deviations)");
  for (int i = 0; i < N; ++i) {
    vf_eq(w[i] * s[i], x[i], "whitened residuals (many deviations)");
    vf_eq(wj[i] * s[i], x[i], "whitened residuals with Jacobian (many deviations)");
    vf_eq(wc[i] * s[i], x[i], "whitened residuals with chained Jacobian (many deviations)");
    for (int j = 0; j < N; ++j) vf_eq(W(i, j) * s[i], i == j, "whitening Jacobian (many deviations)");
    for (int c = 0; c < 3; ++c) vf_eq(Wc(i, c) * s[i], Jx(i, c), "chained whitening Jacobian (many deviations)");
  }
}
// VF: h_large_diag cases=3
extern "C" void h_large_diag() {
  switch (vf_case()) {
    case 0: diag<4, 4>(); break;
    case 1: diag<5, Dynamic>(); break;
    default: diag<6, 6>(); break;
  }
  vf_reach("diag");
}
template <int N, int D> static void info() {
  Vector<double, D> x(N);
  Matrix<double, D, D> U(N, N);
  Matrix<double, D, 3> Jx(N, 3);
  vf_fill(x, "x");
  vf_fill(U, "U");
  vf_fill(Jx, "Jx");
  const auto w = MahaWhitenedInfoU(x, U);
  auto [wj, W] = MahaWhitenedInfoU(x, U, true);
  auto [wc, Wc] = MahaWhitenedInfoU(x, U, Jx);
  vf_assert(w.size() == N && W.rows() == N && W.cols() == N && Wc.rows() == N && Wc.cols() == 3, "shapes (large information)");
  for (int i = 0; i < N; ++i) {
    double r = 0;
    for (int j = i; j < N; ++j) r += U(i, j) * x[j];
    vf_eq(w[i], r, "whitened residuals (large information)");
    vf_eq(wj[i], r, "whitened residuals with Jacobian (large information)");
    vf_eq(wc[i], r, "whitened residuals with chained Jacobian (large information)");
    for (int j = 0; j < N; ++j) vf_eq(W(i, j), j >= i ? U(i, j) : 0, "whitening Jacobian (large information)");
    for (int c = 0; c < 3; ++c) {
      double e = 0;
      for (int j = i; j < N; ++j) e += U(i, j) * Jx(j, c);
      vf_eq(Wc(i, c), e, "chained whitening Jacobian (large information)");
    }
  }
}
// VF: h_large_info cases=3
extern "C" void h_large_info() {
  switch (vf_case()) {
    case 0: info<4, 4>(); break;
    case 1: info<5, Dynamic>(); break;
    default: info<6, 6>(); break;
  }
  vf_reach("info");
}
// Whitening with a larger covariance.
template <int N, int D> static void whiten(int at) {
  double h[N][N], y[N], x2 = 0, w2 = 0;
  const double s = vf_range("s", 0.3, 3);
  large(h, at, s * s);
  Matrix<double, D, D> C(N, N);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) C(i, j) = i <= j ? h[i][j] : 77 + i - j;
  Vector<double, D> x(N);
  for (int i = 0; i < N; ++i) y[i] = vf_real("y");
  for (int i = 0; i < N; ++i) { double r = 0; for (int j = 0; j < N; ++j) r += h[i][j] * y[j]; x[i] = r; }
  for (int i = 0; i < N; ++i) x2 += x[i] * y[i];
  const auto w = MahaWhitened(x, C);
  vf_assert(w.size() == N, "size of the whitened residuals");
  for (int i = 0; i < N; ++i) w2 += w[i] * w[i];
  vf_eq(w2, x2, "many whitened residuals have the same squared norm");
  auto [wj, W] = MahaWhitened(x, C, true);
  vf_assert(W.rows() == N && W.cols() == N, "shape of the whitening Jacobian");
  for (int i = 0; i < N; ++i) {
    vf_eq(wj[i], w[i], "many whitened residuals with Jacobian");
    double r = 0;
    for (int j = 0; j < N; ++j) r += W(i, j) * x[j];
    vf_eq(r, w[i], "large whitening is linear with its Jacobian");
  }
}
// VF: h_large_whiten cases=2
extern "C" void h_large_whiten() {
  if (vf_case()) whiten<5, Dynamic>(4);
  else whiten<4, 4>(3);
  vf_reach("whiten");
}

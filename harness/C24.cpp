// BOUND: points of size 1..3 (thorough 4), and of size 4..6 with one free coordinate, static and dynamic, double and float; L2/Mahalanobis/cosine derivatives where the norms are above 1e-3 (the library guards divisions near zero)
// BOUND: L1 derivatives where no component vanishes, L-infinity derivatives where the largest component is unique
#include "vf.h"
#include "large.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/distances.h>
using namespace tinyopt;
namespace D = tinyopt::distances;

static double ab(double x) { return x < 0 ? -x : x; }

template <typename V> struct Pts {
  V a, b;
  int n;
  double d[8];
  Pts(int n) : a(n), b(n), n(n) {
    if (n < 4 || (n == 4 && V::SizeAtCompileTime == 4)) {
      vf_fill(a, "a");
      vf_fill(b, "b");
    } else {
      const int at = vf_pick("at", 0, n - 1);
      for (int i = 0; i < n; ++i) { a[i] = i == at ? vf_real("a") : i * 0.75 - 1; b[i] = i == at ? vf_real("b") : 2 - i * 0.5; }
    }
    for (int i = 0; i < n; ++i) d[i] = double(a[i]) - double(b[i]);
  }
  template <typename J> void shape(const J &Ja, const J &Jb, const char *label) const {
    vf_assert(Ja.rows() == 1 && Ja.cols() == n && Jb.rows() == 1 && Jb.cols() == n, label);
  }
};
template <typename V> static void l2(int n) {
  Pts<V> p(n);
  double s = 0;
  for (int i = 0; i < n; ++i) s += p.d[i] * p.d[i];
  const double v = D::Euclidean(p.a, p.b);
  vf_le(0, v, "Euclidean distance is not negative");
  vf_eq(v * v, s, "Euclidean distance");
  vf_eq(D::L2(p.a, p.b), v, "L2 is the Euclidean distance");
  vf_eq(D::L2(p.b, p.a), v, "Euclidean distance is symmetric");
  vf_assume(s > 1e-6);
  auto [e, Ja, Jb] = D::Euclidean(p.a, p.b, true);
  p.shape(Ja, Jb, "Euclidean Jacobian shape");
  vf_eq(e, v, "Euclidean distance with Jacobians");
  for (int i = 0; i < n; ++i) {
    vf_eq(Ja(0, i) * v, p.d[i], "Euclidean derivative by the first point");
    vf_eq(Jb(0, i) * v, -p.d[i], "Euclidean derivative by the second point");
  }
}
template <typename V> static void l1(int n) {
  Pts<V> p(n);
  double s = 0;
  for (int i = 0; i < n; ++i) s += ab(p.d[i]);
  vf_eq(D::Manhattan(p.a, p.b), s, "Manhattan distance");
  vf_eq(D::L1(p.b, p.a), s, "Manhattan distance is symmetric");
  auto [e, Ja, Jb] = D::L1(p.a, p.b, true);
  p.shape(Ja, Jb, "Manhattan Jacobian shape");
  vf_eq(e, s, "Manhattan distance with Jacobians");
  for (int i = 0; i < n; ++i)
    if (p.d[i] != 0) {
      vf_eq(Ja(0, i), p.d[i] > 0 ? 1 : -1, "Manhattan derivative by the first point");
      vf_eq(Jb(0, i), p.d[i] > 0 ? -1 : 1, "Manhattan derivative by the second point");
    }
}
template <typename V> static void linf(int n) {
  Pts<V> p(n);
  double m = 0;
  for (int i = 0; i < n; ++i) if (ab(p.d[i]) > m) m = ab(p.d[i]);
  vf_eq(D::Linf(p.a, p.b), m, "L-infinity distance");
  vf_eq(D::Linf(p.b, p.a), m, "L-infinity distance is symmetric");
  auto [e, Ja, Jb] = D::Linf(p.a, p.b, true);
  p.shape(Ja, Jb, "L-infinity Jacobian shape");
  vf_eq(e, m, "L-infinity distance with Jacobians");
  int k = 0, at = -1;
  for (int i = 0; i < n; ++i) if (ab(p.d[i]) == m) { ++k; at = i; }
  if (k != 1 || m == 0) return;
  for (int i = 0; i < n; ++i) {
    const double g = i != at ? 0 : p.d[i] > 0 ? 1 : -1;
    vf_eq(Ja(0, i), g, "L-infinity derivative by the first point");
    vf_eq(Jb(0, i), -g, "L-infinity derivative by the second point");
  }
}
template <typename V> static void cosine(int n) {
  Pts<V> p(n);
  double aa = 0, bb = 0, dot = 0;
  for (int i = 0; i < n; ++i) { aa += double(p.a[i]) * p.a[i]; bb += double(p.b[i]) * p.b[i]; dot += double(p.a[i]) * p.b[i]; }
  vf_assume(aa > 1e-6);
  vf_assume(bb > 1e-6);
  const double na = std::sqrt(aa), nb = std::sqrt(bb);
  vf_eq(D::Cosine(p.a, p.b) * na * nb, dot, "cosine");
  auto [c, Ja, Jb] = D::Cosine(p.a, p.b, true);
  p.shape(Ja, Jb, "cosine Jacobian shape");
  vf_eq(c * na * nb, dot, "cosine with Jacobians");
  for (int i = 0; i < n; ++i) {
    vf_eq(Ja(0, i) * na * nb * aa, p.b[i] * aa - dot * p.a[i], "cosine derivative by the first vector");
    vf_eq(Jb(0, i) * na * nb * bb, p.a[i] * bb - dot * p.b[i], "cosine derivative by the second vector");
  }
}
template <typename V> static void maha_vars(int n) {
  Pts<V> p(n);
  V s(n);
  double n2 = 0;
  for (int i = 0; i < n; ++i) { s[i] = vf_pos("var"); n2 += p.d[i] * p.d[i] / s[i]; }
  vf_assume(n2 > 1e-6);
  const double v = D::MahaNorm(p.a, p.b, s);
  vf_le(0, v, "Mahalanobis distance is not negative");
  vf_eq(v * v, n2, "Mahalanobis distance");
  auto [e, Ja, Jb] = D::MahaNorm(p.a, p.b, s, true);
  p.shape(Ja, Jb, "Mahalanobis Jacobian shape");
  vf_eq(e, v, "Mahalanobis distance with Jacobians");
  for (int i = 0; i < n; ++i) {
    vf_eq(Ja(0, i) * v * s[i], p.d[i], "Mahalanobis derivative by the first point");
    vf_eq(Jb(0, i) * v * s[i], -p.d[i], "Mahalanobis derivative by the second point");
  }
}
// Covariance matrix: a - b = C*y
template <typename M, typename V> static void maha_cov() {
  M C(2, 2);
  V a(2), b(2);
  vf_fill(C, "c");
  vf_fill(b, "b");
  vf_assume(C(0, 0) > 0);
  vf_assume(C(0, 0) * C(1, 1) - C(0, 1) * C(0, 1) > 0);
  const double y[2] = {vf_real("y"), vf_real("y")};
  const double d[2] = {C(0, 0) * y[0] + C(0, 1) * y[1], C(0, 1) * y[0] + C(1, 1) * y[1]};
  a[0] = b[0] + d[0];
  a[1] = b[1] + d[1];
  const double n2 = d[0] * y[0] + d[1] * y[1];
  vf_assume(n2 > 1e-6);
  const double v = D::MahaNorm(a, b, C);
  vf_le(0, v, "Mahalanobis distance is not negative");
  vf_eq(v * v, n2, "Mahalanobis distance");
  auto [e, Ja, Jb] = D::MahaNorm(a, b, C, true);
  vf_eq(e, v, "Mahalanobis distance with Jacobians");
  for (int i = 0; i < 2; ++i) {
    vf_eq(Ja(0, i) * v, y[i], "Mahalanobis derivative by the first point");
    vf_eq(Jb(0, i) * v, -y[i], "Mahalanobis derivative by the second point");
  }
}
template <int N, typename M, typename V> static void maha_large() {
  double h[N][N], y[N], n2 = 0;
  large(h, N - 2, vf_range("d", 0.5, 2));
  M C(N, N);
  V a(N), b(N);
  for (int i = 0; i < N; ++i) { y[i] = i == 1 ? vf_real("y") : 0.5 * i - 1; b[i] = i == 2 ? vf_real("b") : i; }
  for (int i = 0; i < N; ++i) {
    double d = 0;
    for (int j = 0; j < N; ++j) { C(i, j) = i <= j ? h[i][j] : 9 * i; d += h[i][j] * y[j]; }
    a[i] = b[i] + d;
    n2 += d * y[i];
  }
  vf_assume(n2 > 1e-6);
  const double v = D::MahaNorm(a, b, C);
  vf_le(0, v, "large Mahalanobis distance is not negative");
  vf_eq(v * v, n2, "large Mahalanobis distance");
  auto [e, Ja, Jb] = D::MahaNorm(a, b, C, true);
  vf_eq(e, v, "large Mahalanobis distance with Jacobians");
  vf_assert(Ja.cols() == N && Jb.cols() == N, "shape of the Jacobians of a large Mahalanobis distance");
  for (int i = 0; i < N; ++i) {
    vf_eq(Ja(0, i) * v, y[i], "large Mahalanobis derivative by the first point");
    vf_eq(Jb(0, i) * v, -y[i], "large Mahalanobis derivative by the second point");
  }
}
template <typename T> static void scalars() {
  const T a = vf_real("a"), b = vf_real("b"), s = vf_range("var", 1e-3, 1e6);
  const double d = double(a) - double(b), v = ab(d);
  vf_eq(D::Euclidean(a, b), v, "scalar Euclidean distance");
  vf_eq(D::Manhattan(a, b), v, "scalar Manhattan distance");
  vf_eq(D::Linf(a, b), v, "scalar L-infinity distance");
  vf_assume(v > 0.1);
  const double g = d > 0 ? 1 : -1;
  auto [e2, a2, b2] = D::L2(a, b, true);
  vf_eq(e2, v, "scalar Euclidean distance with derivatives");
  vf_eq(a2, g, "scalar Euclidean derivative by the first point");
  vf_eq(b2, -g, "scalar Euclidean derivative by the second point");
  auto [e1, a1, b1] = D::L1(a, b, true);
  vf_eq(e1, v, "scalar Manhattan distance with derivatives");
  vf_eq(a1, g, "scalar Manhattan derivative by the first point");
  vf_eq(b1, -g, "scalar Manhattan derivative by the second point");
  auto [ei, ai, bi] = D::Linf(a, b, true);
  vf_eq(ei, v, "scalar L-infinity distance with derivatives");
  vf_eq(ai, g, "scalar L-infinity derivative by the first point");
  vf_eq(bi, -g, "scalar L-infinity derivative by the second point");
  const double m = D::MahaNorm(a, b, s);
  vf_le(0, m, "scalar Mahalanobis distance is not negative");
  vf_eq(m * m * s, d * d, "scalar Mahalanobis distance");
  auto [em, am, bm] = D::MahaNorm(a, b, s, true);
  vf_eq(em, m, "scalar Mahalanobis distance with derivatives");
  vf_assume(m > 1e-3);
  vf_eq(am * m * s, d, "scalar Mahalanobis derivative by the first point");
  vf_eq(bm * m * s, -d, "scalar Mahalanobis derivative by the second point");
}
#define RUN(f)                          \
  switch (vf_case()) {                  \
    case 0: f<Vec1>(1); break;          \
    case 1: f<Vec2>(2); break;          \
    case 2: f<Vec3>(3); break;          \
    case 3: f<VecX>(2); break;          \
    case 4: f<Vec2f>(2); break;         \
    case 5: f<Vector<double, 5>>(5); break; \
    case 6: f<VecX>(4); break;          \
    case 7: f<VecX>(6); break;          \
    default: f<Vec4>(4); break;         \
  }
// VF: h_l2 cases=8 thorough.cases=9
extern "C" void h_l2() {
  RUN(l2)
  vf_reach("l2");
}
// VF: h_l1 cases=8 thorough.cases=9
extern "C" void h_l1() {
  RUN(l1)
  vf_reach("l1");
}
// VF: h_linf cases=8
extern "C" void h_linf() {
  RUN(linf)
  vf_reach("linf");
}
// VF: h_cosine cases=8 thorough.cases=9
extern "C" void h_cosine() {
  RUN(cosine)
  vf_reach("cosine");
}
// VF: h_maha cases=8 thorough.cases=9
extern "C" void h_maha() {
  RUN(maha_vars)
  vf_reach("maha");
}
// VF: h_maha_cov cases=4
extern "C" void h_maha_cov() {
  switch (vf_case()) {
    case 0: maha_cov<Mat2, Vec2>(); break;
    case 1: maha_cov<MatX, VecX>(); break;
    case 2: maha_large<4, Mat4, Vec4>(); break;
    default: maha_large<5, MatX, VecX>(); break;
  }
  vf_reach("maha cov");
}
// VF: h_scalar cases=2
extern "C" void h_scalar() {
  if (vf_case()) scalars<float>(); else scalars<double>();
  vf_reach("scalar");
}

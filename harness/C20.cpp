// BOUND: vectors of size 1..6 (Linf 1..5), static and dynamic, double and float; numbers; argument Jacobians with 2 columns
// BOUND: the L2 Jacobian is checked for norms above 1e-6 (the library guards the division below 1e-7)
// BOUND: L1/Linf Jacobians where they exist: no zero component (L1), unique largest component (Linf)
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/losses/norms.h>
using namespace tinyopt;
using namespace tinyopt::losses;

template <typename V> static V make(int n) { V x(n); vf_fill(x, "x"); return x; }

template <typename V> static void sq(int n) {
  V x = make<V>(n);
  double s = 0;
  for (int i = 0; i < n; ++i) s += double(x[i]) * double(x[i]);
  vf_eq(SquaredL2(x), s, "squared L2 value");
  const bool scale = vf_bool("add_scale");
  auto [l, J] = SquaredL2(x, true, scale);
  vf_eq(l, s, "squared L2 value with Jacobian");
  vf_assert(J.rows() == 1 && J.cols() == n, "squared L2 Jacobian shape");
  for (int i = 0; i < n; ++i) vf_eq(J(0, i), (scale ? 2.0 : 1.0) * x[i], "squared L2 Jacobian");
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [l2, J2] = SquaredL2(x, Jx, scale);
  vf_eq(l2, s, "squared L2 value with chained Jacobian");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < n; ++i) e += (scale ? 2.0 : 1.0) * x[i] * Jx(i, c);
    vf_eq(J2(0, c), e, "squared L2 chained Jacobian");
  }
  vf_eq(SquaredL2(x, nullptr), s, "squared L2 value without Jacobian");
}

template <typename V> static void l2(int n) {
  V x = make<V>(n);
  double s = 0;
  for (int i = 0; i < n; ++i) s += double(x[i]) * double(x[i]);
  const double v = L2(x);
  vf_le(0, v, "L2 is not negative");
  vf_eq(v * v, s, "L2 squared is the sum of squares");
  vf_eq(L2(x, nullptr), v, "L2 value without Jacobian");
  vf_assume(v > 1e-6);
  auto [l, J] = L2(x, true);
  vf_eq(l, v, "L2 value with Jacobian");
  vf_assert(J.rows() == 1 && J.cols() == n, "L2 Jacobian shape");
  for (int i = 0; i < n; ++i) vf_eq(J(0, i) * v, x[i], "L2 Jacobian");
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = L2(x, Jx);
  vf_eq(lc, v, "L2 value with chained Jacobian");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < n; ++i) e += x[i] * Jx(i, c);
    vf_eq(Jc(0, c) * v, e, "L2 chained Jacobian");
  }
}

template <typename V> static void l1(int n) {
  V x = make<V>(n);
  double s = 0;
  for (int i = 0; i < n; ++i) s += x[i] < 0 ? -x[i] : x[i];
  vf_eq(L1(x), s, "L1 value");
  vf_eq(L1(x, nullptr), s, "L1 value without Jacobian");
  auto [l, J] = L1(x, true);
  vf_eq(l, s, "L1 value with Jacobian");
  vf_assert(J.rows() == 1 && J.cols() == n, "L1 Jacobian shape");
  for (int i = 0; i < n; ++i)
    if (x[i] != 0) vf_eq(J(0, i), x[i] > 0 ? 1 : -1, "L1 Jacobian");
  for (int i = 0; i < n; ++i) vf_assume(x[i] != 0);
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = L1(x, Jx);
  vf_eq(lc, s, "L1 value with chained Jacobian");
  vf_assert(Jc.rows() == 1 && Jc.cols() == 2, "L1 chained Jacobian shape");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < n; ++i) e += x[i] > 0 ? Jx(i, c) : -Jx(i, c);
    vf_eq(Jc(0, c), e, "L1 chained Jacobian");
  }
}

template <typename V> static void linf(int n) {
  V x = make<V>(n);
  double m = 0;
  for (int i = 0; i < n; ++i) { const double a = x[i] < 0 ? -x[i] : x[i]; if (a > m) m = a; }
  vf_eq(Linf(x), m, "Linf value");
  vf_eq(Linf(x, nullptr), m, "Linf value without Jacobian");
  auto [l, J] = Linf(x, true);
  vf_eq(l, m, "Linf value with Jacobian");
  vf_assert(J.rows() == 1 && J.cols() == n, "Linf Jacobian shape");
  int k = 0, at = -1;
  for (int i = 0; i < n; ++i) { const double a = x[i] < 0 ? -x[i] : x[i]; if (a == m) { ++k; at = i; } }
  if (k != 1 || m == 0) return;
  for (int i = 0; i < n; ++i) vf_eq(J(0, i), i != at ? 0 : x[i] > 0 ? 1 : -1, "Linf Jacobian");
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = Linf(x, Jx);
  vf_eq(lc, m, "Linf value with chained Jacobian");
  for (int c = 0; c < 2; ++c) vf_eq(Jc(0, c), x[at] > 0 ? Jx(at, c) : -Jx(at, c), "Linf chained Jacobian");
}

#define RUN(f)                                  \
  switch (vf_case()) {                          \
    case 0: f<Vec1>(1); break;                  \
    case 1: f<Vec2>(2); break;                  \
    case 2: f<Vec3>(3); break;                  \
    case 3: f<VecX>(2); break;                  \
    case 4: f<VecX>(3); break;                  \
    case 5: f<Vec2f>(2); break;                 \
    case 6: f<VecXf>(3); break;                 \
    case 7: f<Vec4>(4); break;                  \
    case 8: f<VecXf>(4); break;                 \
    case 9: f<Vec5>(5);   break;                \
    case 10: f<VecX>(6); break;                 \
    default: f<Vec6>(6); break;                  \
  }
// VF: h_sq cases=11 thorough.cases=12
extern "C" void h_sq() {
  RUN(sq)
  vf_reach("sq");
}
// VF: h_l2 cases=11 thorough.cases=12
extern "C" void h_l2() {
  RUN(l2)
  vf_reach("l2");
}
// VF: h_l1 cases=11 thorough.cases=12
extern "C" void h_l1() {
  RUN(l1)
  vf_reach("l1");
}
// VF: h_linf cases=10 thorough.cases=12
extern "C" void h_linf() {
  RUN(linf)
  vf_reach("linf");
}

template <typename T> static void scal() {
  const T x = vf_real("x");
  const double a = x < 0 ? -x : x;
  const bool scale = vf_bool("add_scale");
  vf_eq(SquaredL2(x), double(x) * x, "scalar squared L2 value");
  vf_eq(SquaredL2(x, true, scale).first, double(x) * x, "scalar squared L2 value with Jacobian");
  vf_eq(SquaredL2(x, true, scale).second, (scale ? 2.0 : 1.0) * x, "scalar squared L2 Jacobian");
  vf_eq(L2(x), a, "scalar L2 value");
  vf_eq(L1(x), a, "scalar L1 value");
  vf_eq(Linf(x), a, "scalar Linf value");
  vf_assume(x != 0);
  vf_eq(L2(x, true).first, a, "scalar L2 value with Jacobian");
  vf_eq(L1(x, true).first, a, "scalar L1 value with Jacobian");
  vf_eq(Linf(x, true).first, a, "scalar Linf value with Jacobian");
  vf_eq(Linf(x, true).second, x > 0 ? 1 : -1, "scalar Linf Jacobian");
  vf_eq(L2(x, true).second, x > 0 ? 1 : -1, "scalar L2 Jacobian");
  vf_eq(L1(x, true).second, x > 0 ? 1 : -1, "scalar L1 Jacobian");
  // the Jacobian of the argument: a number or a row
  const T j = vf_real("j"), g = x > 0 ? 1 : -1;
  RowVector<T, 2> r;
  vf_fill(r, "row");
  vf_eq(SquaredL2(x, j, scale).second, (scale ? 2.0 : 1.0) * x * j, "scalar squared L2 chained Jacobian");
  vf_eq(L2(x, j).second, g * j, "scalar L2 chained Jacobian");
  vf_eq(L1(x, j).second, g * j, "scalar L1 chained Jacobian");
  vf_eq(Linf(x, j).second, g * j, "scalar Linf chained Jacobian");
  for (int c = 0; c < 2; ++c) {
    vf_eq(SquaredL2(x, r, scale).second(0, c), (scale ? 2.0 : 1.0) * x * r[c], "scalar squared L2 chained Jacobian");
    vf_eq(L2(x, r).second(0, c), g * r[c], "scalar L2 chained Jacobian");
    vf_eq(L1(x, r).second(0, c), g * r[c], "scalar L1 chained Jacobian");
    vf_eq(Linf(x, r).second(0, c), g * r[c], "scalar Linf chained Jacobian");
  }
  vf_eq(SquaredL2(x, r, scale).first, double(x) * x, "scalar squared L2 value with chained Jacobian");
  vf_eq(L2(x, r).first, a, "scalar L2 value with chained Jacobian");
  vf_eq(L1(x, r).first, a, "scalar L1 value with chained Jacobian");
  vf_eq(Linf(x, r).first, a, "scalar Linf value with chained Jacobian");
}
// VF: h_scalar cases=2
extern "C" void h_scalar() {
  if (vf_case()) scal<float>(); else scal<double>();
  vf_reach("scalar");
}

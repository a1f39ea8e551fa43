// BOUND: matrices of size 1..3, static and dynamic storage; the lower triangle holds unrelated values
// BOUND: size-3 indefinite matrices have one coupled pair of variables; size-3 singular matrices have rank 1
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
using namespace tinyopt;

template <int N, bool Dyn, typename T = double> struct Sym {
  static constexpr int D = Dyn ? Dynamic : N;
  Matrix<T, D, D> A{N, N};
  double a(int i, int j) const { return i <= j ? A(i, j) : A(j, i); }
  Sym() {
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) A(i, j) = vf_real(i <= j ? "a" : "lower");
  }
  double quad(const double *v) const {
    double q = 0;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) q += v[i] * a(i, j) * v[j];
    return q;
  }
  void definite() {  // sizes 1, 2 by minors, size 3 by its Cholesky factor
    if constexpr (N <= 2) {
      vf_assume(a(0, 0) > 0);
      if constexpr (N == 2) vf_assume(a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 0);
      if constexpr (sizeof(T) == 4) {
        vf_assume(a(0, 0) < 1e6 && a(0, 0) > 1e-6);
        if constexpr (N == 2) vf_assume(a(1, 1) < 1e6 && a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 1e-6);
      }
    } else {
      double l[N][N] = {};
      for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) l[i][j] = i == j ? vf_pos("l") : vf_real("l");
      for (int j = 0; j < N; ++j)
        for (int i = 0; i <= j; ++i) { double r = 0; for (int k = 0; k <= i; ++k) r += l[i][k] * l[j][k]; A(i, j) = r; }
    }
  }
};
template <int N, typename S> static void definite() {
  S s;
  s.definite();
  const auto X = InvCov(s.A);
  vf_assert(X.has_value(), "a definite matrix is inverted");
  if (!X) return;
  vf_assert(X->rows() == N && X->cols() == N, "shape of the inverse");
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double r = 0;
      for (int k = 0; k < N; ++k) r += s.a(i, k) * (*X)(k, j);
      vf_eq(r, i == j, "matrix times inverse is the identity");
      if (i < j) vf_eq((*X)(i, j), (*X)(j, i), "the inverse is symmetric");
    }
}
template <int N, typename S> static void indefinite(int p, int q) {
  S s;
  for (int j = 0; j < N; ++j) for (int i = 0; i < j; ++i) if (i != p || j != q) s.A(i, j) = 0;
  double v[N];
  for (int i = 0; i < N; ++i) v[i] = vf_real("v");
  vf_assume(s.quad(v) < 0);
  vf_assert(!InvCov(s.A).has_value(), "an indefinite matrix is not inverted");
}
template <int N, typename S> static void singular() {
  S s;
  double g[N];
  for (int i = 0; i < N; ++i) g[i] = vf_real("g");
  for (int j = 0; j < N; ++j) for (int i = 0; i <= j; ++i) s.A(i, j) = g[i] * g[j];
  vf_assert(!InvCov(s.A).has_value(), "a singular matrix is not inverted");
}
// VF: h_definite cases=6
extern "C" void h_definite() {
  switch (vf_case()) {
    case 0: definite<1, Sym<1, false>>(); break;
    case 1: definite<2, Sym<2, false>>(); break;
    case 2: definite<3, Sym<3, false>>(); break;
    case 3: definite<2, Sym<2, true>>(); break;
    case 4: definite<1, Sym<1, true>>(); break;
    default: definite<2, Sym<2, true, float>>(); break;
  }
  vf_reach("definite");
}
// VF: h_indefinite cases=5
extern "C" void h_indefinite() {
  switch (vf_case()) {
    case 0: indefinite<2, Sym<2, false>>(0, 1); break;
    case 1: indefinite<2, Sym<2, true>>(0, 1); break;
    case 2: indefinite<3, Sym<3, false>>(0, 1); break;
    case 3: indefinite<3, Sym<3, false>>(0, 2); break;
    default: indefinite<3, Sym<3, false>>(1, 2); break;
  }
  vf_reach("indefinite");
}
// VF: h_singular cases=3
extern "C" void h_singular() {
  switch (vf_case()) {
    case 0: singular<2, Sym<2, false>>(); break;
    case 1: singular<2, Sym<2, true>>(); break;
    default: singular<3, Sym<3, false>>(); break;
  }
  vf_reach("singular");
}
// One entry: its inverse or nothing.
template <typename S> static void single() {
  S s;
  const double a = s.a(0, 0);
  vf_assume(a != 0);
  const auto X = InvCov(s.A);
  if (X) vf_eq((*X)(0, 0) * a, 1, "inverse of one entry");
}
// VF: h_single cases=2
extern "C" void h_single() {
  if (vf_case()) single<Sym<1, true>>();
  else single<Sym<1, false>>();
  vf_reach("single");
}
// A block of a larger matrix is inverted like the matrix itself.
// VF: h_block cases=1
extern "C" void h_block() {
  Mat3 M;
  vf_fill(M, "m");
  const auto B = M.block(1, 1, 2, 2);
  vf_assume(B(0, 0) > 0 && B(0, 0) * B(1, 1) - B(0, 1) * B(0, 1) > 0);
  const auto X = InvCov(B);
  vf_assert(X.has_value(), "a definite block is inverted");
  if (X) {
    vf_eq(B(0, 0) * (*X)(0, 0) + B(0, 1) * (*X)(1, 0), 1, "block times inverse");
    vf_eq(B(0, 0) * (*X)(0, 1) + B(0, 1) * (*X)(1, 1), 0, "block times inverse");
    vf_eq(B(0, 1) * (*X)(0, 0) + B(1, 1) * (*X)(1, 0), 0, "block times inverse");
    vf_eq(B(0, 1) * (*X)(0, 1) + B(1, 1) * (*X)(1, 1), 1, "block times inverse");
  }
  vf_reach("block");
}
template <typename V> static void variances(int n) {
  V v(n);
  for (int i = 0; i < n; ++i) { v[i] = vf_real("v"); vf_assume(v[i] != 0); }
  const auto X = InvCov(v);
  vf_assert(X.has_value(), "variances are inverted");
  if (!X) return;
  vf_assert(X->rows() == n && X->cols() == n, "shape of the inverse of variances");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) vf_eq((*X)(i, j) * v[i], i == j, "inverse of variances");
}
// VF: h_variances cases=4
extern "C" void h_variances() {
  switch (vf_case()) {
    case 0: variances<Vec1>(1); break;
    case 1: variances<Vec2>(2); break;
    case 2: variances<VecX>(2); break;
    default: variances<VecX>(3); break;
  }
  vf_reach("variances");
}

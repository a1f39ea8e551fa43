// BOUND: sparse matrices of size 4..6 (thorough: 8), tridiagonal and arrow-shaped, with fixed entries but one diagonal entry; any right-hand side; differences of 5x4 matrices with 6 stored entries each
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
using namespace tinyopt;
using SpMat = SparseMatrix<double>;
enum { Band, Arrow };
// The entry `at` of the diagonal is e above the value that makes it the Schur complement of a positive matrix.
template <int N> struct Sp {
  double m[N][N] = {};
  SpMat A{N, N};
  Sp(int kind, bool full, int at, double e) {
    for (int i = 0; i < N; ++i) m[i][i] = 3 + i % 3;
    for (int i = 0; i + 1 < N; ++i) { const int j = kind == Band ? i + 1 : N - 1; m[i][j] = m[j][i] = i % 2 ? -0.5 : 0.75; }
    double s = 0;
    if (kind == Band) {
      double u = 0, v = 0;
      for (int i = 0; i < at; ++i) { u = m[i][i] - u; u = m[i][i + 1] * m[i][i + 1] / u; }
      for (int i = N - 1; i > at; --i) { v = m[i][i] - v; v = m[i][i - 1] * m[i][i - 1] / v; }
      s = u + v;
    } else {
      at = N - 1;
      for (int i = 0; i < at; ++i) s += m[i][at] * m[i][at] / m[i][i];
    }
    m[at][at] = s + e;
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) if (m[i][j] != 0 || i == j) if (full || i <= j) A.coeffRef(i, j) = m[i][j];
    A.makeCompressed();
  }
};
template <int N> static void large(int kind, bool full, int at) {
  const bool good = vf_bool("definite");
  const double e = good ? vf_pos("e") : -vf_pos("e");
  Sp<N> s(kind, full, at, e);
  VecX b(N);
  vf_fill(b, "b");
  const auto x = SolveLDLT(s.A, b);
  vf_assert(x.has_value() == good, "a large sparse system is solved exactly if it is definite");
  if (x) {
    vf_assert(x->size() == N, "size of the solution");
    for (int i = 0; i < N; ++i) {
      double r = 0;
      for (int j = 0; j < N; ++j) r += s.m[i][j] * (*x)[j];
      vf_eq(r, b[i], "the solution solves the large sparse system");
    }
  }
  if (!good) return;
  const auto X = InvCov(s.A);
  vf_assert(X.has_value(), "a large definite sparse matrix is inverted");
  if (!X) return;
  vf_assert(X->rows() == N && X->cols() == N, "shape of the sparse inverse");
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double r = 0;
      for (int k = 0; k < N; ++k) r += s.m[i][k] * X->coeff(k, j);
      vf_eq(r, i == j, "large sparse matrix times its inverse");
    }
}
// VF: h_large cases=8 thorough.cases=10
extern "C" void h_large() {
  const bool full = vf_case() % 2;
  switch (vf_case() / 2) {
    case 0: large<4>(Band, full, 1); break;
    case 1: large<5>(Arrow, full, 0); break;
    case 2: large<6>(Band, full, 3); break;
    case 3: large<6>(Arrow, full, 0); break;
    default: large<8>(Band, full, 7); break;
  }
  vf_reach("large");
}
// VF: h_diff cases=4
extern "C" void h_diff() {
  SpMat a(5, 4), b(5, 4);
  const int which = vf_pick("which", 0, 5), in = vf_case() % 2, both = vf_case() / 2;
  const int at[6][2] = {{0, 0}, {3, 1}, {4, 1}, {1, 2}, {2, 3}, {4, 3}};
  double m = 0;
  for (int k = 0; k < 6; ++k) {
    const double u = k == which ? vf_real("u") : k * 0.5 - 1, v = !both && k % 2 ? 0 : 0.25 * k;
    (in ? b : a).coeffRef(at[k][0], at[k][1]) = u;
    if (v != 0 || both) (in ? a : b).coeffRef(at[k][0], at[k][1]) = v;
    const double d = u > v ? u - v : v - u;
    if (d > m) m = d;
  }
  vf_eq(MaxAbsDiff(a, b), m, "maximum absolute difference of larger matrices");
  a.makeCompressed();
  b.makeCompressed();
  vf_eq(MaxAbsDiff(b, a), m, "maximum absolute difference of larger matrices");
  vf_reach("diff");
}

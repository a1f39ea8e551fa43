// BOUND: sparse matrices of size 1..2 with every sparsity pattern and chosen 3x3 patterns; values symbolic; double
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
using namespace tinyopt;
using SpMat = SparseMatrix<double>;

// A definite symmetric matrix, whose strictly upper entries (0,1), (0,2), (1,2) are present according to
// the bits of `pattern`; stored in the upper triangle or fully.
template <int N> struct Sp {
  double m[N][N];
  SpMat A{N, N};
  void set(int i, int j, double v, bool full) {
    m[i][j] = m[j][i] = v;
    A.coeffRef(i, j) = v;
    if (full && i != j) A.coeffRef(j, i) = v;
  }
  Sp(int pattern, bool full, bool definite) {
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i][j] = 0;
    for (int i = 0; i < N; ++i) set(i, i, vf_real("d"), full);
    int bit = 0;
    for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j, ++bit) if (pattern >> bit & 1) set(i, j, vf_real("o"), full);
    A.makeCompressed();
    if (!definite) return;
    vf_assume(m[0][0] > 0);
    if constexpr (N >= 2) vf_assume(m[0][0] * m[1][1] - m[0][1] * m[0][1] > 0);
    if constexpr (N >= 3)
      vf_assume(m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[1][2]) - m[0][1] * (m[0][1] * m[2][2] - m[1][2] * m[0][2]) +
                    m[0][2] * (m[0][1] * m[1][2] - m[1][1] * m[0][2]) > 0);
  }
};
template <int N> static void solve(int pattern, bool full) {
  Sp<N> s(pattern, full, true);
  VecX b(N);
  vf_fill(b, "b");
  const auto x = SolveLDLT(s.A, b);
  vf_assert(x.has_value(), "a definite sparse system is solved");
  if (!x) return;
  vf_assert(x->size() == N, "size of the solution");
  for (int i = 0; i < N; ++i) {
    double r = 0;
    for (int j = 0; j < N; ++j) r += s.m[i][j] * (*x)[j];
    vf_eq(r, b[i], "the solution solves the sparse system");
  }
}
template <int N> static void inverse(int pattern, bool full) {
  Sp<N> s(pattern, full, true);
  const auto X = InvCov(s.A);
  vf_assert(X.has_value(), "a definite sparse matrix is inverted");
  if (!X) return;
  vf_assert(X->rows() == N && X->cols() == N, "shape of the sparse inverse");
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double r = 0;
      for (int k = 0; k < N; ++k) r += s.m[i][k] * X->coeff(k, j);
      vf_eq(r, i == j, "sparse matrix times its inverse");
    }
}
#define CASES(f)                                      \
  const bool full = vf_case() % 2;                    \
  switch (vf_case() / 2) {                            \
    case 0: f<1>(0, full); break;                     \
    case 1: f<2>(0, full); break;                     \
    case 2: f<2>(1, full); break;                     \
    case 3: f<3>(0, full); break;                     \
    case 4: f<3>(1, full); break;                     \
    case 5: f<3>(2, full); break;                     \
    case 6: f<3>(4, full); break;                     \
    case 7: f<3>(3, full); break;                     \
    case 8: f<3>(5, full); break;                     \
    case 9: f<3>(6, full); break;                     \
    default: f<3>(7, full); break;                    \
  }
// VF: h_solve cases=22
extern "C" void h_solve() {
  CASES(solve)
  vf_reach("solve");
}
// VF: h_inverse cases=22
extern "C" void h_inverse() {
  CASES(inverse)
  vf_reach("inverse");
}
// A matrix with a zero pivot cannot be factorised: no result.
// VF: h_fail cases=2
extern "C" void h_fail() {
  Sp<2> s(vf_case(), false, false);
  VecX b(2);
  vf_fill(b, "b");
  vf_assume(s.m[0][0] == 0 && (s.m[1][1] == 0 || vf_case()));
  if (vf_case()) vf_assume(s.m[1][1] == 0 && s.m[0][1] != 0);
  vf_assert(!SolveLDLT(s.A, b).has_value(), "no solution without a factorisation");
  vf_assert(!InvCov(s.A).has_value(), "no inverse without a factorisation");
  vf_reach("fail");
}
// No solution for a symmetric matrix with a negative diagonal entry or 2x2 minor.
// VF: h_indefinite cases=6
extern "C" void h_indefinite() {
  const bool full = vf_case() % 2;
  VecX b(2);
  vf_fill(b, "b");
  Sp<2> s(vf_case() / 2 > 0, full, false);
  if (vf_case() / 2 == 2) vf_assume(s.m[0][0] > 0 && s.m[1][1] > 0 && s.m[0][0] * s.m[1][1] < s.m[0][1] * s.m[0][1]);
  else vf_assume(s.m[0][0] < 0 || s.m[1][1] < 0);
  vf_assert(!SolveLDLT(s.A, b).has_value(), "no solution for a matrix that is not positive");
  vf_reach("indefinite");
}
// With a shift offset, a matrix that cannot be factorised is inverted after adding the offset to its diagonal.
// VF: h_shift cases=4
extern "C" void h_shift() {
  Sp<2> s(vf_case() % 2, vf_case() == 3, false);
  if (vf_case() % 2) vf_assume(s.m[0][0] == 0 && s.m[1][1] == 0 && s.m[0][1] != 0);
  else vf_assume(s.m[vf_case() / 2][vf_case() / 2] == 0);
  const double e = vf_pos("e");
  vf_assume((s.m[0][0] + e) * (s.m[1][1] + e) != s.m[0][1] * s.m[0][1]);
  const auto X = InvCov(s.A, e);
  vf_assert(X.has_value(), "inverse with a shift");
  if (X)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        double r = 0;
        for (int k = 0; k < 2; ++k) r += (s.m[i][k] + (i == k ? e : 0)) * X->coeff(k, j);
        vf_eq(r, i == j, "shifted matrix times its inverse");
      }
  vf_reach("shift");
}
// VF: h_empty
extern "C" void h_empty() {
  SpMat A(0, 0);
  vf_assert(!InvCov(A).has_value(), "an empty matrix has no inverse");
  vf_reach("empty");
}
// Maximum absolute difference, for every pair of sparsity patterns.
template <int R, int C> static void maxdiff(int pa, int pb) {
  SpMat a(R, C), b(R, C);
  double m = 0;
  for (int j = 0; j < C; ++j)
    for (int i = 0; i < R; ++i) {
      double u = 0, v = 0;
      const int bit = j * R + i;
      if (pa >> bit & 1) a.coeffRef(i, j) = u = vf_real("u");
      if (pb >> bit & 1) b.coeffRef(i, j) = v = vf_real("v");
      const double d = u > v ? u - v : v - u;
      if (d > m) m = d;
    }
  a.makeCompressed();
  b.makeCompressed();
  vf_eq(MaxAbsDiff(a, b), m, "maximum absolute difference");
  vf_eq(MaxAbsDiff(b, a), m, "maximum absolute difference is symmetric");
}
// VF: h_maxdiff cases=16
extern "C" void h_maxdiff() {
  const int pa = vf_case();
  maxdiff<2, 2>(pa, vf_pick("pb", 0, 15));
  vf_reach("maxdiff");
}
// VF: h_maxdiff_rect cases=16
extern "C" void h_maxdiff_rect() {
  if (vf_case() < 8) maxdiff<3, 1>(vf_case(), vf_pick("pb", 0, 7));
  else maxdiff<1, 3>(vf_case() - 8, vf_pick("pb", 0, 7));
  vf_reach("maxdiff rect");
}
// VF: h_mismatch
extern "C" void h_mismatch() {
  SpMat a(2, 2), b(2, 1), c(1, 2);
  int n = 0;
  try { MaxAbsDiff(a, b); } catch (const std::invalid_argument &) { ++n; }
  try { MaxAbsDiff(a, c); } catch (const std::invalid_argument &) { ++n; }
  vf_assert(n == 2, "different shapes are rejected");
  vf_reach("mismatch");
}

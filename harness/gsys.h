// Symmetric positive-definite systems and user functions that accumulate them.
#pragma once
#include "vf.h"
#include <tinyopt/tinyopt.h>
using namespace tinyopt;

template <int N> struct Normal {
  double h[N][N], g[N];
  Normal() {
    for (int i = 0; i < N; ++i) g[i] = vf_real("g");
  }
  // Sizes 1, 2: leading principal minors.  Size 3: through the Cholesky factor, which every definite matrix has.
  void definite(double min = 0) {
    if constexpr (N <= 2) {
      for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) h[i][j] = h[j][i] = vf_real("h");
      vf_assume(h[0][0] > min);
      if constexpr (N == 2) vf_assume(h[0][0] * h[1][1] - h[0][1] * h[0][1] > 0);
    } else {
      double l[N][N] = {};
      for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) l[i][j] = i == j ? vf_pos("l") : vf_real("l");
      for (int i = 0; i < N; ++i)
        for (int j = i; j < N; ++j) { double r = 0; for (int k = 0; k <= i; ++k) r += l[i][k] * l[j][k]; h[i][j] = h[j][i] = r; }
    }
  }
  // The damped matrix is definite: through its Cholesky factor.
  void definite_damped(double lambda) {
    static_assert(N == 3);
    definite();
    for (int i = 0; i < N; ++i) h[i][i] /= 1 + lambda;
  }
  void any() {
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) h[i][j] = h[j][i] = vf_real("h");
  }
  template <typename G, typename H> void add(G &grad, H &m, bool full) const {
    for (int i = 0; i < N; ++i) grad[i] += g[i];
    for (int i = 0; i < N; ++i)
      for (int j = full ? 0 : i; j < N; ++j)
        if constexpr (traits::is_sparse_matrix_v<H>) m.coeffRef(i, j) += h[i][j];
        else m(i, j) += h[i][j];
  }
  // (h + lambda*diag(h))*dx == -s*g
  template <typename X> void solved(const X &dx, double lambda, const char *label) const {
    vf_assert(dx.size() == N, label);
    for (int i = 0; i < N; ++i) {
      double r = 0;
      for (int j = 0; j < N; ++j) r += (i == j ? (1 + lambda) * h[i][j] : h[i][j]) * dx[j];
      vf_eq(r, -g[i], label);
    }
  }
  // The system holds exactly this one (lower triangle only if it was filled).
  template <typename G, typename H> void same(const G &grad, const H &m, bool full, const char *label) const {
    vf_assert(grad.size() == N && m.rows() == N && m.cols() == N, label);
    for (int i = 0; i < N; ++i) vf_eq(grad[i], g[i], label);
    for (int i = 0; i < N; ++i) for (int j = full ? 0 : i; j < N; ++j) vf_eq(m.coeff(i, j), h[i][j], label);
  }
};
template <typename G> static bool is_zero(const G &g) {
  for (int j = 0; j < g.cols(); ++j) for (int i = 0; i < g.rows(); ++i) if (g.coeff(i, j) != 0) return false;
  return true;
}
template <int N, int D> using HessianOf = Matrix<double, D, D>;
using SpMat = SparseMatrix<double>;
static Options quiet(Options::Solver t = Options::Solver::LevenbergMarquardt) { Options o(t); o.log.enable = false; return o; }

// BOUND: matrices of size 4..6 (thorough: 7), static and dynamic storage, L*D*L^T with a fixed L and any one entry of D
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
#include "large.h"
using namespace tinyopt;

template <int N, bool Dyn, typename T = double> static void invert(double sign) {
  constexpr int D = Dyn ? Dynamic : N;
  double h[N][N];
  large(h, vf_pick("at", 0, N - 1), sign * vf_range("d", 0.1, 10));
  Matrix<T, D, D> A{N, N};
  for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) A(i, j) = i <= j ? T(h[i][j]) : T(vf_real("lower"));
  const auto X = InvCov(A);
  if (sign <= 0) return vf_assert(!X.has_value(), "a large matrix that is not definite is not inverted");
  vf_assert(X.has_value(), "a large definite matrix is inverted");
  if (!X) return;
  vf_assert(X->rows() == N && X->cols() == N, "shape of a large inverse");
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double r = 0;
      for (int k = 0; k < N; ++k) r += double(i <= k ? A(i, k) : A(k, i)) * (*X)(k, j);
      vf_eq(r, i == j, "large matrix times inverse is the identity");
      if (i < j) vf_eq((*X)(i, j), (*X)(j, i), "a large inverse is symmetric");
    }
}
// VF: h_large cases=6 thorough.cases=7
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: invert<4, false>(1); break;
    case 1: invert<5, true>(1); break;
    case 2: invert<6, false>(1); break;
    case 3: invert<4, true>(-1); break;
    case 4: invert<5, false>(-1); break;
    case 5: invert<4, true, float>(1); break;
    default: invert<7, true>(1); break;
  }
  vf_reach("large");
}

// BOUND: systems of size 4..6 (thorough: ..8), static and dynamic storage, L*D*L^T with a fixed L and any one entry of D, any right-hand side
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
#include "large.h"
using namespace tinyopt;

template <int N, bool Dyn, typename T = double> static void solve(double sign) {
  constexpr int D = Dyn ? Dynamic : N;
  double h[N][N];
  large(h, Dyn && sign > 0 ? 2 : vf_pick("at", 0, N - 1), sign * vf_range("d", 0.1, 10));
  Matrix<T, D, D> A{N, N};
  Vector<T, D> b{N};
  for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) A(i, j) = i <= j ? T(h[i][j]) : T(vf_real("lower"));
  for (int i = 0; i < N; ++i) b[i] = vf_real("b");
  const auto x = SolveLDLT(A, b);
  if (sign < 0) return vf_assert(!x.has_value(), "a large indefinite system is refused");
  vf_assert(x.has_value(), "a large definite system is never refused");
  if (!x) return;
  vf_assert(x->size() == N, "size of the solution of a large system");
  for (int i = 0; i < N; ++i) {
    double r = 0;
    for (int j = 0; j < N; ++j) r += double(i <= j ? A(i, j) : A(j, i)) * (*x)[j];
    vf_eq(r, b[i], "the solution of a large system solves it");
  }
}
// VF: h_large cases=6 thorough.cases=8
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: solve<4, false>(1); break;
    case 1: solve<5, true>(1); break;
    case 2: solve<6, false>(1); break;
    case 3: solve<4, true>(-1); break;
    case 4: solve<6, false>(-1); break;
    case 5: solve<4, true, float>(1); break;
    case 6: solve<8, true>(1); break;
    default: solve<7, false>(1); break;
  }
  vf_reach("large");
}

// BOUND: systems of size 4..6 (thorough: ..8), dense static/dynamic and sparse, double and float, L*D*L^T with a fixed L and any one entry of D, any gradient
#include "gsys.h"
#include "large.h"
using namespace tinyopt::solvers;

template <typename H_t, int N> static void step(bool ldlt, bool full, int at) {
  Options o = quiet(Options::Solver::GaussNewton);
  o.hessian.use_ldlt = ldlt;
  o.hessian.H_is_full = full;
  SolverGN<H_t> s(o);
  using Scalar = typename SolverGN<H_t>::Scalar;
  Vector<Scalar, Dynamic> x = Vector<Scalar, Dynamic>::Zero(N);
  s.resize(N);
  Normal<N> a;
  large(a.h, at, vf_range("d", 0.5, 8));
  const auto acc = [&](const auto &, auto &grad, auto &H) {
    vf_assert(grad.size() == N && H.rows() == N && H.cols() == N, "size of a large system");
    vf_assert(is_zero(grad), "large gradient cleared before a build");
    vf_assert(is_zero(H), "large Hessian cleared before a build");
    a.add(grad, H, full);
    return Cost(1.0, N);
  };
  for (int k = 0; k < 2; ++k) vf_assert(s.Build(x, acc), "build of a large system");
  a.same(s.Gradient(), s.Hessian(), full || (!ldlt && !traits::is_sparse_matrix_v<H_t>), "the large system is the user's");
  const auto dx = s.Solve();
  vf_assert(dx.has_value(), "a large definite system gives a step");
  if (dx) a.solved(*dx, 0, "the step solves the large normal equations");
}
// VF: h_large cases=8 thorough.cases=10
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: step<Matrix<double, 4, 4>, 4>(true, vf_bool("full"), 1); break;
    case 1: step<Matrix<double, 6, 6>, 6>(true, false, 3); break;
    case 2: step<MatX, 4>(true, true, 2); break;
    case 3: step<Matrix<double, 4, 4>, 4>(false, false, 2); break;
    case 4: step<SpMat, 4>(true, vf_bool("full"), 1); break;
    case 5: step<SpMat, 5>(true, false, 2); break;
    case 6: step<Matrix<float, 4, 4>, 4>(true, false, 0); break;
    case 7: step<MatX, 4>(false, false, 1); break;
    case 8: step<MatX, 5>(true, true, 2); break;
    default: step<Matrix<double, 8, 8>, 8>(true, false, 3); break;
  }
  vf_reach("large");
}

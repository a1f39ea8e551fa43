// BOUND: residuals quadratic in the parameters with coefficients and parameters in [-10,10]; 3..9 parameters as square and other matrices, vectors, arrays and std::vector, static and dynamic; float and double;
// BOUND: 1..6 residuals; dense and sparse Hessians; up to two evaluations of one system
#include "c17.h"

// The system is built but not solved: a diagonal that small is refused.
template <bool damped, int S, int N, int R, typename H_t, typename X> static void system(X x) {
  constexpr bool sparse = traits::is_sparse_matrix_v<H_t>;
  Poly<N, R> f(true, true);
  for (int i = 0; i < N; ++i) set(x, i, f.x[i]);
  Options o = quiet(damped ? Options::Solver::LevenbergMarquardt : Options::Solver::GaussNewton);
  o.max_iters = 0;
  o.max_consec_failures = 1;
  o.hessian.check_min_H_diag = 1e30f;
  const auto fun = [&](const auto &y) { return shape<S, R>(f, y); };
  const auto check = [&](auto &&opt) {
    const Output out = opt(x, fun);
    double cost = 0;
    for (int k = 0; k < R; ++k) cost += f.value(f.x, k) * f.value(f.x, k);
    vf_eq(opt.solver().cost().cost, cost, "cost is the squared norm");
    vf_assert(opt.solver().cost().num_resisuals == R, "number of residuals");
    const auto g = opt.solver().Gradient();
    vf_assert(g.size() == N, "size of the gradient");
    vf_assert(out.has_final_hessian(), "Hessian");
    for (int i = 0; i < N; ++i) {
      double s = 0;
      for (int k = 0; k < R; ++k) s += f.deriv(f.x, k, i) * f.value(f.x, k);
      vf_eq(g[i], s, "gradient is J^T*r");
      for (int j = 0; j < N; ++j) {
        s = 0;
        for (int k = 0; k < R; ++k) s += f.deriv(f.x, k, i) * f.deriv(f.x, k, j);
        double h;
        if constexpr (sparse) h = out.final_hessian_sparse().coeff(i, j); else h = out.final_hessian_dense()(i, j);
        vf_eq(h, s, "Hessian is J^T*J");
      }
    }
  };
  if constexpr (damped) check(lm::Optimizer<H_t>(o));
  else check(gn::Optimizer<H_t>(o));
}
// VF: h_shapes cases=20
extern "C" void h_shapes() {
  switch (vf_case()) {
    case 0: system<false, Stat, 6, 2, Matrix<double, 6, 6>>(Matrix<double, 3, 2>()); break;
    case 1: system<true, Stat, 6, 2, Matrix<double, 6, 6>>(Matrix<double, 2, 3>()); break;
    case 2: system<false, Stat, 6, 2, MatX>(MatX(3, 2)); break;
    case 3: system<true, Dyn, 6, 2, MatX>(MatX(2, 3)); break;
    case 4: system<false, Stat, 9, 1, Matrix<double, 9, 9>>(Mat3()); break;
    case 5: system<true, Scal, 6, 1, Matrix<double, 6, 6>>(Matrix<double, 3, 2>()); break;
    case 6: system<false, Dyn, 5, 4, MatX>(VecX(5)); break;
    case 7: system<true, Mat, 4, 6, Mat4>(Vec4()); break;
    case 8: system<false, DynMat, 3, 6, MatX>(VecX(3)); break;
    case 9: system<true, Mat, 4, 4, Mat4>(Mat2()); break;
    case 10: system<false, Stat, 5, 2, Matrix<double, 5, 5>>(std::array<double, 5>()); break;
    case 11: system<true, Stat, 4, 2, MatX>(std::vector<double>(4)); break;
    case 12: system<false, Stat, 4, 2, Mat4>(Matrix<double, 1, 4>()); break;
    case 13: system<true, Stat, 4, 2, MatX>(Matrix<double, 1, Dynamic>(1, 4)); break;
    case 14: system<false, Stat, 3, 2, Mat3f>(Vec3f()); break;
    case 15: system<true, Dyn, 3, 3, MatXf>(VecXf(3)); break;
    case 16: system<false, Stat, 3, 2, SparseMatrix<double>>(VecX(3)); break;
    case 17: system<true, Dyn, 3, 2, SparseMatrix<double>>(VecX(3)); break;
    case 18: system<false, Scal, 6, 1, MatX>(MatX(3, 2)); break;
    default: system<true, Mat, 6, 4, MatX>(Matrix<double, 3, Dynamic>(3, 2)); break;
  }
  vf_reach("shapes");
}

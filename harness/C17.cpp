// BOUND: residuals quadratic in the parameters with any coefficients (some fixed when optimising); 1..4 parameters as scalar, static/dynamic vector, matrix, array, std::vector and user-defined type;
// BOUND: 1..4 residuals as scalar, static/dynamic vector and matrix; constant residuals of dynamically sized problems; one evaluation, two for gradient descent
#include "c17.h"

// The Jacobian itself.
template <int S, int N, int R, typename X> static void eval(X x) {
  Poly<N, R> f;
  f.init(x);
  const auto fun = [&](const auto &y) { return shape<S, R>(f, y); };
  const auto [r, J] = diff::Eval(x, fun);
  if constexpr (S == Scal) {
    vf_eq(r, f.value(f.x, 0), "residual");
    vf_assert(J.size() == N, "size of the Jacobian");
    for (int i = 0; i < N; ++i) vf_eq(J[i], f.deriv(f.x, 0, i), "Jacobian");
  } else f.jac(r, J);
  const auto J2 = diff::CalculateJac(x, fun);
  for (int k = 0; k < J2.size(); ++k) vf_eq(J2.data()[k], J.data()[k], "Jacobian alone");
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), f.x[i], "parameters are not changed");
}
// VF: h_eval cases=20
extern "C" void h_eval() {
  switch (vf_case()) {
    case 0: eval<Scal, 1, 1>(0.0); break;
    case 1: eval<Stat, 1, 2>(0.0); break;
    case 2: eval<Dyn, 1, 2>(0.0); break;
    case 3: eval<Scal, 2, 1>(Vec2(0, 0)); break;
    case 4: eval<Stat, 2, 3>(Vec2(0, 0)); break;
    case 5: eval<Dyn, 2, 3>(Vec2(0, 0)); break;
    case 6: eval<Mat, 2, 4>(Vec2(0, 0)); break;
    case 7: eval<Scal, 2, 1>(VecX(2)); break;
    case 8: eval<Stat, 2, 3>(VecX(2)); break;
    case 9: eval<Dyn, 3, 2>(VecX(3)); break;
    case 10: eval<DynMat, 2, 4>(VecX(2)); break;
    case 11: eval<Mat, 2, 2>(VecX(2)); break;
    case 12: eval<Scal, 4, 1>(Mat2()); break;
    case 13: eval<Stat, 4, 2>(Mat2()); break;
    case 14: eval<Dyn, 4, 2>(MatX(2, 2)); break;
    case 15: eval<Stat, 6, 2>(Matrix<double, 2, 3>()); break;
    case 16: eval<Stat, 2, 3>(Pose<>()); break;
    case 17: eval<Scal, 2, 1>(Pose<>()); break;
    case 18: eval<Dyn, 3, 2>(std::array<double, 3>()); break;
    default: eval<Stat, 2, 2>(std::vector<double>(2)); break;
  }
  vf_reach("eval");
}
// What an optimiser is given: gradient, Hessian and cost of the first evaluation.
template <int S, int N, int R, typename X> static void squares(X x, Options::Solver type) {
  Poly<N, R> f(false);
  f.init(x);
  double r[R], J[R][N], cost = 0;
  for (int k = 0; k < R; ++k) {
    r[k] = f.value(f.x, k);
    cost += r[k] * r[k];
    for (int i = 0; i < N; ++i) J[k][i] = f.deriv(f.x, k, i);
  }
  Options o = quiet(type);
  o.max_iters = 0;
  o.max_consec_failures = 1;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  o.hessian.use_ldlt = N == 1;  // the step is not looked at, inverses have fewer branches
  bool seen = false;
  o.stop_callback2 = [&](float e, const VecXf &dx, const VecXf &g) {
    seen = true;
    vf_eq(e, cost, "cost is the squared norm");
    vf_assert(g.size() == N && dx.size() == N, "size of the gradient");
    for (int i = 0; i < N; ++i) {
      double s = 0;
      for (int k = 0; k < R; ++k) s += J[k][i] * r[k];
      vf_eq(g[i], s, "gradient is J^T*r");
    }
    return true;
  };
  const auto out = Optimize(x, [&](const auto &y) { return shape<S, R>(f, y); }, o);
  vf_assert(!out.num_diff_used, "automatic differentiation");
  vf_assert(out.has_final_hessian(), "Hessian");
  const auto &H = out.final_hessian_dense();
  vf_assert(H.rows() == N && H.cols() == N, "size of the Hessian");
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      double s = 0;
      for (int k = 0; k < R; ++k) s += J[k][i] * J[k][j];
      vf_eq(H(i, j), s, "Hessian is J^T*J");
    }
  if (seen) {
    vf_assert(out.stop_reason == StopReason::kUserStopped, "stopped");
    vf_eq(out.final_cost.cost, cost, "final cost");
    vf_assert(out.final_cost.num_resisuals == R, "number of residuals");
  }
}
// VF: h_nlls cases=22
extern "C" void h_nlls() {
  const auto t = vf_case() % 2 ? Options::Solver::LevenbergMarquardt : Options::Solver::GaussNewton;
  switch (vf_case() / 2) {
    case 0: squares<Scal, 1, 1>(0.0, t); break;
    case 1: squares<Stat, 1, 2>(0.0, t); break;
    case 2: squares<Scal, 2, 1>(Vec2(0, 0), t); break;
    case 3: squares<Stat, 2, 2>(Vec2(0, 0), t); break;
    case 4: squares<Dyn, 2, 2>(Vec2(0, 0), t); break;
    case 5: squares<Mat, 2, 2>(Vec2(0, 0), t); break;
    case 6: squares<Stat, 2, 2>(VecX(2), t); break;
    case 7: squares<Scal, 2, 1>(VecX(2), t); break;
    case 8: squares<DynMat, 2, 2>(VecX(2), t); break;
    case 9: squares<Stat, 2, 2>(Pose<>(), t); break;
    default: squares<Stat, 2, 2>(Matrix<double, 1, 2>(), t); break;
  }
  vf_reach("nlls");
}
// Gradient descent on a scalar residual: all coefficients for one iteration, one parameter for two.
template <int N, typename X> static void descent(X x, bool two) {
  Poly<N, 1> f(!two);
  if (two) {
    f.c[0] = 1;
    for (int i = 0; i < N; ++i) f.x[i] = i ? 0.5 : vf_range("x0", -4, 4);
  }
  f.init(x);
  Options o = quiet(Options::Solver::GradientDescent);
  o.max_iters = two;
  o.gd.lr = 0.25f;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  int it = 0;
  double p[N];
  for (int i = 0; i < N; ++i) p[i] = f.x[i];
  o.stop_callback2 = [&](float e, const VecXf &, const VecXf &g) {
    const double r = f.value(p, 0);
    vf_eq(e, r, "cost is the residual");
    double d[N];
    for (int i = 0; i < N; ++i) d[i] = r * f.deriv(p, 0, i);
    for (int i = 0; i < N; ++i) { vf_eq(g[i], d[i], "gradient of half the square"); p[i] -= 0.25 * d[i]; }
    ++it;
    return false;
  };
  const auto out = Optimize(x, [&](const auto &y) { return f.res(y, 0); }, o);
  if (two) vf_assert(it == 2 && out.num_iters == 2, "iterations");
}
// VF: h_descent cases=8
extern "C" void h_descent() {
  const bool two = vf_case() % 2;
  switch (vf_case() / 2) {
    case 0: descent<1>(0.0, two); break;
    case 1: descent<2>(Vec2(0, 0), two); break;
    case 2: descent<2>(VecX(2), two); break;
    default: descent<2>(Pose<>(), two); break;
  }
  vf_reach("descent");
}
// Later iterations differentiate at the current parameters: one parameter, Gauss-Newton.
// VF: h_again
extern "C" void h_again() {
  const double a = vf_pos("a"), b = vf_real("b"), x0 = vf_real("x");
  Options o = quiet(Options::Solver::GaussNewton);
  o.max_iters = 1;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  double x = x0, p = x0;
  int it = 0;
  o.stop_callback2 = [&](float e, const VecXf &dx, const VecXf &g) {
    const double r = p * p + a * p + b, J = 2 * p + a;
    vf_eq(e, r * r, "cost at the current parameters");
    vf_eq(g[0], J * r, "gradient at the current parameters");
    vf_eq(double(dx[0]) * J * J, -J * r, "step at the current parameters");
    p += dx[0];
    return it++ == 1;
  };
  vf_assume(2 * x0 + a > 1);
  const auto out = Optimize(x, [&](const auto &y) { return y * y + a * y + b; }, o);
  vf_reach("again");
}
// A residual that does not depend on the parameters has no derivative.
template <typename X> static void unconnected(X x, Options::Solver t) {
  const double c = vf_range("c", -10, 10), a = vf_range("x", -10, 10);
  for (int i = 0; i < 2; ++i) set(x, i, a + i);
  Options o = quiet(t);
  o.max_iters = 0;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  const auto fun = [&](const auto &y) {
    using T = std::decay_t<decltype(par(y, 0))>;
    Matrix<T, 3, 1> r;
    r[0] = par(y, 0);
    r[1] = T(c);
    r[2] = par(y, 1) * 2.0;
    return r;
  };
  const auto [r, J] = diff::Eval(x, fun);
  vf_assert(J.rows() == 3 && J.cols() == 2, "size of the Jacobian");
  vf_assert(J(0, 0) == 1 && J(0, 1) == 0 && J(1, 0) == 0 && J(1, 1) == 0 && J(2, 0) == 0 && J(2, 1) == 2, "constant residual has no derivative");
  const auto out = Optimize(x, fun, o);
  vf_eq(out.final_cost.cost, a * a + c * c + 4 * (a + 1) * (a + 1), "cost with a constant residual");
  const auto &H = out.final_hessian_dense();
  vf_eq(H(0, 0), 1, "Hessian with a constant residual");
  vf_eq(H(0, 1), 0, "Hessian with a constant residual");
  vf_eq(H(1, 1), 4, "Hessian with a constant residual");
}
// VF: h_constant
extern "C" void h_constant() {
  VecX x(2);
  for (int i = 0; i < 2; ++i) x[i] = vf_real("x");
  const double c = vf_range("c", -10, 10);
  const auto fun = [&](const auto &y) { using T = std::decay_t<decltype(y[0])>; return T(c); };
  const auto [r, J] = diff::Eval(x, fun);
  vf_eq(r, c, "constant residual");
  vf_assert(J.size() == 2 && J[0] == 0 && J[1] == 0, "constant residual has no derivative");
  Options o = quiet(Options::Solver::GaussNewton);
  o.max_iters = 0;
  const auto out = Optimize(x, fun, o);
  vf_eq(out.final_cost.cost, c * c, "cost of a constant residual");
  const auto &H = out.final_hessian_dense();
  vf_assert(H.rows() == 2 && H.cols() == 2 && is_zero(H), "Hessian of a constant residual");
  vf_reach("constant");
}
// VF: h_unconnected cases=4
extern "C" void h_unconnected() {
  const auto t = vf_case() % 2 ? Options::Solver::LevenbergMarquardt : Options::Solver::GaussNewton;
  if (vf_case() / 2) unconnected(VecX(2), t); else unconnected(Vec2(0, 0), t);
  vf_reach("unconnected");
}

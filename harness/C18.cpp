// BOUND: functions that are cubic in the parameters with any coefficients, any step h; 1..6 parameters (double; 2 also float) as scalar, static/dynamic vector, matrix, array, std::vector and user-defined type;
// BOUND: 1..6 residuals as scalar, static/dynamic vector and matrix
#include "pars.h"
using diff::Method;

// r_k = c + sum_i (l_i p_i + q_i p_i^2 + t_i p_i^3) + m p_0 p_last
template <int N, int R> struct Cubic {
  double c[R], l[R][N], q[R][N], t[R][N], m[R], x[N];
  Cubic() {
    for (int k = 0; k < R; ++k) {
      c[k] = vf_real("c");
      m[k] = vf_real("m");
      for (int i = 0; i < N; ++i) { l[k][i] = vf_real("l"); q[k][i] = vf_real("q"); t[k][i] = vf_real("t"); }
    }
    for (int i = 0; i < N; ++i) x[i] = vf_real("x");
  }
  double at(const double *p, int k) const {
    double r = c[k] + m[k] * p[0] * p[N - 1];
    for (int i = 0; i < N; ++i) r += l[k][i] * p[i] + q[k][i] * p[i] * p[i] + t[k][i] * p[i] * p[i] * p[i];
    return r;
  }
  double at(int k, int i, double h) const {  // with the i-th parameter moved by h
    double p[N];
    for (int j = 0; j < N; ++j) p[j] = x[j] + (i == j ? h : 0);
    return at(p, k);
  }
  double quotient(int k, int i, Method method, double h) const {
    return method == Method::kForward ? (at(k, i, h) - at(x, k)) / h : (at(k, i, h) - at(k, i, -h)) / (2 * h);
  }
  template <typename X> double res(const X &y, int k) const {
    double p[N];
    for (int j = 0; j < N; ++j) p[j] = par(y, j);
    return at(p, k);
  }
};
enum { Scal, Stat, Dyn, Mat, DynMat };
template <int S, int R> static auto shape(const auto &f, const auto &x) {
  if constexpr (S == Scal) return f.res(x, 0);
  else {
    std::conditional_t<S == Stat, Matrix<double, R, 1>, std::conditional_t<S == Dyn, VecX, std::conditional_t<S == Mat, Matrix<double, (R + 1) / 2, 2>, MatX>>> m;
    if constexpr (S == Dyn) m.resize(R);
    if constexpr (S == DynMat) m.resize(R / 2, 2);
    for (int k = 0; k < R; ++k) m.data()[k] = f.res(x, k);
    return m;
  }
}
static Method methods[] = {Method::kForward, Method::kCentral, Method::kFastCentral};

template <int S, int N, int R, typename X> static void quotients(X x) {
  Cubic<N, R> f;
  for (int i = 0; i < N; ++i) set(x, i, f.x[i]);
  const double h = vf_real("h");
  vf_assume(h != 0);
  const Method method = methods[vf_pick("method", 0, 2)];
  const auto fun = [&](const auto &y) { return shape<S, R>(f, y); };
  const auto [r, J] = diff::NumEval(x, fun, method, h);
  if constexpr (S == Scal) vf_eq(r, f.at(f.x, 0), "residual at the point");
  else for (int k = 0; k < R; ++k) vf_eq(r.data()[k], f.at(f.x, k), "residual at the point");
  vf_assert(J.rows() == R && J.cols() == N, "size of the Jacobian");
  for (int k = 0; k < R; ++k)
    for (int i = 0; i < N; ++i)
      vf_eq(J(k, i), f.quotient(k, i, method, h), method == Method::kForward ? "forward difference" : method == Method::kCentral ? "central difference" : "fast central difference");
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), f.x[i], "the point is not changed");
  const auto J2 = diff::EstimateNumJac(x, fun, method, h);
  for (int k = 0; k < R; ++k) for (int i = 0; i < N; ++i) vf_eq(J2(k, i), J(k, i), "Jacobian alone");
}
// VF: h_quotients cases=20
extern "C" void h_quotients() {
  switch (vf_case()) {
    case 0: quotients<Scal, 1, 1>(0.0); break;
    case 1: quotients<Stat, 1, 2>(0.0); break;
    case 2: quotients<Scal, 2, 1>(Vec2(0, 0)); break;
    case 3: quotients<Stat, 2, 3>(Vec2(0, 0)); break;
    case 4: quotients<Dyn, 3, 2>(Vec3(0, 0, 0)); break;
    case 5: quotients<Scal, 2, 1>(VecX(2)); break;
    case 6: quotients<Stat, 2, 2>(VecX(2)); break;
    case 7: quotients<Dyn, 3, 3>(VecX(3)); break;
    case 8: quotients<Scal, 4, 1>(Mat2()); break;
    case 9: quotients<Stat, 4, 2>(MatX(2, 2)); break;
    case 10: quotients<Stat, 6, 2>(Matrix<double, 2, 3>()); break;
    case 11: quotients<Stat, 2, 2>(Pose<>()); break;
    case 12: quotients<Scal, 2, 1>(Pose<>()); break;
    case 13: quotients<Dyn, 3, 2>(std::array<double, 3>()); break;
    case 14: quotients<Stat, 2, 2>(std::vector<double>(2)); break;
    case 15: quotients<Mat, 2, 4>(Vec2(0, 0)); break;
    case 16: quotients<DynMat, 2, 4>(VecX(2)); break;
    case 17: quotients<Stat, 5, 6>(Vector<double, 5>()); break;
    case 18: quotients<Dyn, 6, 5>(VecX(6)); break;
    default: quotients<Scal, 6, 1>(std::vector<double>(6)); break;
  }
  vf_reach("quotients");
}
// Default step and method: exact for quadratic functions up to the rounding of the step itself.
// VF: h_default
extern "C" void h_default() {
  const double a = vf_range("a", -4, 4), b = vf_range("b", -4, 4), c = vf_range("c", -4, 4);
  Vec2 x(vf_range("x", -4, 4), vf_range("y", -4, 4));
  const auto J = diff::EstimateNumJac(x, [&](const auto &p) { return a * p[0] * p[0] + b * p[0] * p[1] + c * p[1]; });
  vf_eq(J(0, 0), 2 * a * x[0] + b * x[1], "derivative with the default step");
  vf_eq(J(0, 1), b * x[0] + c, "derivative with the default step");
  vf_reach("default");
}
// Functions that also take a gradient or a Hessian.
// VF: h_signatures
extern "C" void h_signatures() {
  const double a = vf_real("a"), b = vf_real("b"), h = vf_pos("h");
  Vec2 x(vf_real("x"), vf_real("y"));
  const auto f = [&](const auto &p) { return a * p[0] * p[0] + b * p[0] * p[1]; };
  const auto f1 = [&](const Vec2 &p, auto &) { return f(p); };
  const auto f2 = [&](const Vec2 &p, auto &, auto &) { return f(p); };
  const auto f3 = [&](const Vec2 &p, std::nullptr_t &, SpMat &H) { vf_assert(H.rows() == 2 && H.cols() == 2, "size of the Hessian"); return f(p); };
  const auto check = [&](const auto &J) { vf_eq(J(0, 0), 2 * a * x[0] + b * x[1], "signature"); vf_eq(J(0, 1), b * x[0], "signature"); };
  check(diff::EstimateNumJac(x, f1, Method::kCentral, h));
  check(diff::EstimateNumJac(x, f2, Method::kCentral, h));
  check(diff::EstimateNumJac(x, f3, Method::kCentral, h));
  vf_reach("signatures");
}
// Cost functions made from residuals.
template <int S, int N, int R, typename X> static void costs(X x) {
  Cubic<N, R> f;
  for (int i = 0; i < N; ++i) set(x, i, f.x[i]);
  const double h = vf_real("h");
  vf_assume(h != 0);
  const Method method = methods[vf_pick("method", 0, 2)];
  const auto fun = [&](const auto &y) { return shape<S, R>(f, y); };
  const auto f1 = diff::CreateNumDiffFunc1(x, fun, method, h);
  const auto f2 = diff::CreateNumDiffFunc2(x, fun, method, h);
  double r[R], J[R][N], n2 = 0;
  for (int k = 0; k < R; ++k) {
    r[k] = f.at(f.x, k);
    n2 += r[k] * r[k];
    for (int i = 0; i < N; ++i) J[k][i] = f.quotient(k, i, method, h);
  }
  using G = Vector<double, traits::params_trait<X>::Dims>;
  using H_t = Matrix<double, traits::params_trait<X>::Dims, traits::params_trait<X>::Dims>;
  const auto ret = [&](const auto &c) {
    if constexpr (S == Scal) {
      const double v = Cost(c).cost;
      vf_eq(v * v, n2, "norm of the residual");
      vf_le(0, v, "norm of the residual");
      vf_assert(Cost(c).num_resisuals == 1, "number of residuals");
    } else {
      const Cost k = c;
      vf_eq(k.cost * k.cost, n2, "norm of the residuals");
      vf_le(0, k.cost, "norm of the residuals");
      vf_assert(k.num_resisuals == R, "number of residuals");
    }
  };
  G g = G::Zero(N);
  H_t H = H_t::Zero(N, N);
  std::nullptr_t nul;
  ret(f1(x, nul));
  ret(f2(x, nul, nul));
  const auto grad = [&](const char *label) {
    vf_assert(g.size() == N, label);
    for (int i = 0; i < N; ++i) {
      double s = 0;
      for (int k = 0; k < R; ++k) s += J[k][i] * r[k];
      vf_eq(g[i], s, label);
    }
  };
  if (vf_bool("second")) {
    ret(f2(x, g, H));
    grad("gradient is J^T*r");
    vf_assert(H.rows() == N && H.cols() == N, "size of the Hessian");
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) {
        double s = 0;
        for (int k = 0; k < R; ++k) s += J[k][i] * J[k][j];
        vf_eq(H(i, j), s, "Hessian is J^T*J");
      }
    g.setZero(N);
    ret(f2(x, g, nul));
    grad("gradient without Hessian");
  } else {
    ret(f1(x, g));
    grad("gradient of the first-order function");
  }
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), f.x[i], "the point is not changed");
}
// VF: h_costs cases=10
extern "C" void h_costs() {
  switch (vf_case()) {
    case 0: costs<Scal, 1, 1>(0.0); break;
    case 1: costs<Stat, 1, 2>(0.0); break;
    case 2: costs<Scal, 2, 1>(Vec2(0, 0)); break;
    case 3: costs<Stat, 2, 2>(Vec2(0, 0)); break;
    case 4: costs<Dyn, 2, 2>(VecX(2)); break;
    case 5: costs<Scal, 2, 1>(VecX(2)); break;
    case 6: costs<Stat, 2, 3>(Pose<>()); break;
    case 7: costs<Stat, 2, 2>(std::array<double, 2>()); break;
    case 8: costs<Stat, 5, 4>(Vector<double, 5>()); break;
    default: costs<Dyn, 4, 5>(VecX(4)); break;
  }
  vf_reach("costs");
}
// Single precision.
template <typename X> static void single(X x) {
  const float a = vf_range("a", -4, 4), b = vf_range("b", -4, 4), c = vf_range("c", -4, 4), h = vf_range("h", 1e-3, 1);
  const double x0 = vf_range("x", -4, 4), x1 = vf_range("y", -4, 4);
  x.setZero();
  x[0] = x0; x[1] = x1;
  const Method method = methods[vf_pick("method", 0, 2)];
  const auto f = [&](const auto &p) { return Vec2f(a * p[0] * p[0] + b * p[0] * p[1], c * p[1] * p[1]); };
  const auto [r, J] = diff::NumEval(x, f, method, h);
  const bool fwd = method == Method::kForward;
  vf_eq(r[0], a * x0 * x0 + b * x0 * x1, "residual in single precision");
  vf_eq(J(0, 0), 2 * a * x0 + b * x1 + (fwd ? a * h : 0), "derivative in single precision");
  vf_eq(J(0, 1), b * x0, "derivative in single precision");
  vf_eq(J(1, 0), 0, "derivative in single precision");
  vf_eq(J(1, 1), 2 * c * x1 + (fwd ? c * h : 0), "derivative in single precision");
}
// VF: h_single cases=2
extern "C" void h_single() {
  if (vf_case()) single(VecXf(3));
  else single(Vec2f(0, 0));
  vf_reach("single");
}

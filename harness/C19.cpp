// BOUND: quadratic costs and affine residuals (1..3 of them) with any coefficients in 1..3 parameters, any tolerance in [1e-9, 1],
// BOUND: gradient and Hessian errors of any value including NaN and infinities, not equal to the tolerance itself
// BOUND: 4..6 parameters with fixed coefficients and one wrong entry anywhere
#include "pars.h"
using diff::Method;

static double tolerance() { return vf_range("eps", 1e-9, 1); }
static Method pick_method() { return vf_bool("fast") ? Method::kFastCentral : Method::kCentral; }
// An error of the supplied derivatives; returns if it is within the tolerance.
static bool wrong_by(double e, double eps) {
  const double a = e < 0 ? -e : e;
  vf_assume(a != eps);
  return a < eps;
}
template <int N> struct Quadratic {
  double c, l[N], q[N][N], x[N];
  Quadratic() {
    c = vf_real("c");
    for (int i = 0; i < N; ++i) { l[i] = vf_real("l"); x[i] = vf_real("x"); for (int j = i; j < N; ++j) q[i][j] = vf_real("q"); }
  }
  template <typename X> double value(const X &p) const {
    double r = c;
    for (int i = 0; i < N; ++i) { r += l[i] * par(p, i); for (int j = i; j < N; ++j) r += q[i][j] * par(p, i) * par(p, j); }
    return r;
  }
  template <typename X> double slope(const X &p, int k) const {
    double r = l[k];
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) r += q[i][j] * ((i == k ? par(p, j) : 0) + (j == k ? par(p, i) : 0));
    return r;
  }
};
enum { First, Dense, Sparse };
template <int S, int N, typename X> static void gradient(X x) {
  Quadratic<N> f;
  for (int i = 0; i < N; ++i) set(x, i, f.x[i]);
  const double eps = tolerance();
  double e[N];
  bool ok = true;
  for (int i = 0; i < N; ++i) { e[i] = vf_any("e"); if (!wrong_by(e[i], eps)) ok = false; }
  const auto fill = [&](const auto &p, auto &g) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      vf_assert(g.size() == N && is_zero(g), "the gradient is given sized and zero");
      for (int i = 0; i < N; ++i) g[i] += f.slope(p, i) + e[i];
    }
    return f.value(p);
  };
  const auto hess = [&](auto &H) { vf_assert(H.rows() == N && H.cols() == N && is_zero(H), "the Hessian is given sized and zero"); };
  bool res;
  const Method method = pick_method();
  const bool verbose = vf_bool("verbose");
  if constexpr (S == First) res = diff::CheckGradient(x, [&](const auto &p, auto &g) { return fill(p, g); }, eps, method, verbose);
  else if constexpr (S == Dense) res = diff::CheckGradient(x, [&](const auto &p, auto &g, auto &H) { hess(H); return fill(p, g); }, eps, method, verbose);
  else res = diff::CheckGradient(x, [&](const auto &p, auto &g, SpMat &H) { hess(H); return fill(p, g); }, eps, method, verbose);
  vf_assert(res || !ok, "right gradient accepted");
  vf_assert(!res || ok, "wrong gradient rejected");
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), f.x[i], "the point is not changed");
}
// VF: h_gradient cases=8
extern "C" void h_gradient() {
  switch (vf_case()) {
    case 0: gradient<First, 1>(0.0); break;
    case 1: gradient<Dense, 1>(0.0); break;
    case 2: gradient<First, 3>(Vec3(0, 0, 0)); break;
    case 3: gradient<Dense, 2>(Vec2(0, 0)); break;
    case 4: gradient<Sparse, 2>(Vec2(0, 0)); break;
    case 5: gradient<First, 3>(VecX(3)); break;
    case 6: gradient<Dense, 2>(VecX(2)); break;
    default: gradient<First, 2>(Pose<>()); break;
  }
  vf_reach("gradient");
}
// The forward difference is exact for affine costs.
// VF: h_forward
extern "C" void h_forward() {
  Vec2 x(vf_real("x"), vf_real("y"));
  const double a = vf_real("a"), b = vf_real("b"), c = vf_real("c"), eps = tolerance(), e0 = vf_any("e"), e1 = vf_any("e");
  const bool ok0 = wrong_by(e0, eps), ok1 = wrong_by(e1, eps), ok = ok0 && ok1;
  const auto f = [&](const auto &p, auto &g) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] = a + e0; g[1] = b + e1; }
    return a * p[0] + b * p[1] + c;
  };
  vf_assert(diff::CheckGradient(x, f, eps, Method::kForward, false) == ok, "forward difference");
  vf_reach("forward");
}
// Residual a*p + b; the supplied gradient and Hessian are off by given errors.
template <int S, int N, int R, bool Scal = false, typename X> static void residuals(X x) {
  double a[R][N], b[R], p0[N], eg[N], eh[N][N];
  for (int k = 0; k < R; ++k) { b[k] = vf_real("b"); for (int i = 0; i < N; ++i) a[k][i] = vf_real("a"); }
  for (int i = 0; i < N; ++i) set(x, i, p0[i] = vf_real("x"));
  const double eps = tolerance();
  const bool check_H = vf_bool("check_H"), downscale = vf_bool("downscale");
  // One entry is off by any value, another one by less than the tolerance.
  const int at = vf_pick("at", 0, N * (N + 1) - 1), near = vf_pick("near", 0, N * (N + 1) - 1);
  const double e = vf_any("e");
  const bool in = wrong_by(e, eps), ok = in || (at >= N && !check_H);
  for (int i = 0; i < N; ++i)
    for (int j = -1; j < N; ++j) {
      double &v = j < 0 ? eg[i] : eh[i][j];
      const int k = j < 0 ? i : N + i * N + j;
      v = 0;
      if (k == near) { v = vf_real("small"); vf_assume(v > -eps && v < eps); }
      if (k == at) v = e;
    }
  const auto fill = [&](const auto &p, auto &g, auto &H) {
    std::conditional_t<Scal, double, Matrix<double, R, 1>> ret;
    double r[R];
    for (int k = 0; k < R; ++k) {
      r[k] = b[k];
      for (int i = 0; i < N; ++i) r[k] += a[k][i] * par(p, i);
      if constexpr (Scal) ret = r[k]; else ret[k] = r[k];
    }
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      vf_assert(g.size() == N && is_zero(g), "the gradient is given sized and zero");
      for (int i = 0; i < N; ++i) {
        double s = 0;
        for (int k = 0; k < R; ++k) s += a[k][i] * r[k];
        g[i] += (downscale ? 1 : 2) * s + eg[i];
      }
      if constexpr (!traits::is_nullptr_v<decltype(H)>) {
        vf_assert(H.rows() == N && H.cols() == N && is_zero(H), "the Hessian is given sized and zero");
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
          double s = eh[i][j];
          for (int k = 0; k < R; ++k) s += a[k][i] * a[k][j];
          H.coeffRef(i, j) = s;
        }
      }
    }
    return ret;
  };
  bool res;
  const Method method = pick_method();
  if constexpr (S == Dense)
    res = diff::CheckResidualsGradient(x, [&](const auto &p, auto &g, auto &H) { return fill(p, g, H); }, eps, method, false, check_H, downscale);
  else
    res = diff::CheckResidualsGradient(x, [&](const auto &p, auto &g, SpMat &H) { return fill(p, g, H); }, eps, method, false, check_H, downscale);
  vf_assert(res || !ok, "right derivatives accepted");
  vf_assert(!res || ok, "wrong derivatives rejected");
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), p0[i], "the point is not changed");
}
// VF: h_residuals cases=6
extern "C" void h_residuals() {
  switch (vf_case()) {
    case 0: residuals<Dense, 1, 1, true>(0.0); break;
    case 1: residuals<Dense, 2, 2>(Vec2(0, 0)); break;
    case 2: residuals<Dense, 2, 1, true>(Vec2(0, 0)); break;
    case 3: residuals<Dense, 2, 2>(VecX(2)); break;
    case 4: residuals<Sparse, 2, 2>(Vec2(0, 0)); break;
    default: residuals<Dense, 2, 3>(Pose<>()); break;
  }
  vf_reach("residuals");
}
// Fills the Hessian whether or not a gradient is asked for.
// VF: h_always
extern "C" void h_always() {
  double x = vf_real("x");
  const double a = vf_real("a"), eps = tolerance(), e = vf_any("e");
  const bool ok = wrong_by(e, eps);
  const auto f = [&](const auto &p, auto &g, auto &H) {
    const double r = a * p;
    if constexpr (!traits::is_nullptr_v<decltype(g)>) g[0] += a * r;
    if constexpr (!traits::is_nullptr_v<decltype(H)>) H(0, 0) += a * a + e;
    return r;
  };
  vf_assert(diff::CheckResidualsGradient(x, f, eps, Method::kCentral, false) == ok, "Hessian accumulated at every evaluation");
  vf_reach("always");
}
// Larger problems with one wrong entry: residuals with fixed coefficients.
template <int S, int N, int R, typename X> static void large(X x) {
  double p0[N];
  for (int i = 0; i < N; ++i) set(x, i, p0[i] = i == 1 ? vf_real("x") : i - 2);
  const double eps = tolerance(), e = vf_any("e");
  const bool check_H = vf_bool("check_H"), downscale = vf_bool("downscale");
  const int at = vf_pick("at", 0, N * (N + 1) - 1);
  const bool ok = wrong_by(e, eps) || (at >= N && !check_H);
  const auto a = [](int k, int i) { return double((k * 3 + i * 5) % 7 - 3); };
  const auto fill = [&](const auto &p, auto &g, auto &H) {
    Matrix<double, R, 1> r;
    for (int k = 0; k < R; ++k) { r[k] = k + 1; for (int i = 0; i < N; ++i) r[k] += a(k, i) * par(p, i); }
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      for (int i = 0; i < N; ++i) {
        double s = 0;
        for (int k = 0; k < R; ++k) s += a(k, i) * r[k];
        g[i] += (downscale ? 1 : 2) * s + (i == at ? e : 0);
      }
      if constexpr (!traits::is_nullptr_v<decltype(H)>)
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
          double s = N + i * N + j == at ? e : 0;
          for (int k = 0; k < R; ++k) s += a(k, i) * a(k, j);
          H.coeffRef(i, j) = s;
        }
    }
    return r;
  };
  bool res;
  const Method method = pick_method();
  if constexpr (S == Dense)
    res = diff::CheckResidualsGradient(x, [&](const auto &p, auto &g, auto &H) { return fill(p, g, H); }, eps, method, false, check_H, downscale);
  else
    res = diff::CheckResidualsGradient(x, [&](const auto &p, auto &g, SpMat &H) { return fill(p, g, H); }, eps, method, false, check_H, downscale);
  vf_assert(res || !ok, "right derivatives of a larger problem accepted");
  vf_assert(!res || ok, "wrong derivatives of a larger problem rejected");
}
// The same for a cost, in all its gradient.
template <int S, int N, typename X> static void large_cost(X x) {
  for (int i = 0; i < N; ++i) set(x, i, i == 1 ? vf_real("x") : i - 2);
  const double eps = tolerance(), e = vf_any("e");
  const int at = vf_pick("at", 0, N - 1);
  const bool ok = wrong_by(e, eps);
  const auto fill = [&](const auto &p, auto &g) {
    double c = 3;
    for (int i = 0; i < N; ++i) c += (i + 1) * par(p, i) * par(p, i) - i * par(p, i) * par(p, 0);
    if constexpr (!traits::is_nullptr_v<decltype(g)>)
      for (int i = 0; i < N; ++i) {
        g[i] += 2 * (i + 1) * par(p, i) - i * par(p, 0) + (i == at ? e : 0);
        if (i == 0) for (int j = 0; j < N; ++j) g[0] -= j * par(p, j);
      }
    return c;
  };
  bool res;
  const Method method = pick_method();
  if constexpr (S == First) res = diff::CheckGradient(x, [&](const auto &p, auto &g) { return fill(p, g); }, eps, method, false);
  else if constexpr (S == Dense) res = diff::CheckGradient(x, [&](const auto &p, auto &g, auto &) { return fill(p, g); }, eps, method, false);
  else res = diff::CheckGradient(x, [&](const auto &p, auto &g, SpMat &) { return fill(p, g); }, eps, method, false);
  vf_assert(res || !ok, "right gradient of a larger cost accepted");
  vf_assert(!res || ok, "wrong gradient of a larger cost rejected");
}
// VF: h_larger cases=7
extern "C" void h_larger() {
  switch (vf_case()) {
    case 0: large<Dense, 4, 3>(Vector<double, 4>()); break;
    case 1: large<Dense, 5, 2>(VecX(5)); break;
    case 2: large<Sparse, 4, 3>(VecX(4)); break;
    case 3: large_cost<First, 6>(Vector<double, 6>()); break;
    case 4: large_cost<First, 5>(VecX(5)); break;
    case 5: large_cost<Dense, 6>(VecX(6)); break;
    default: large_cost<Sparse, 4>(Vector<double, 4>()); break;
  }
  vf_reach("larger");
}

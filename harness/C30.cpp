// BOUND: runs of up to 3 iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent, 1..2 parameters, full positive-definite systems (4 and 5 parameters with a fixed Hessian and two free entries of the gradients), sometimes with a negative diagonal; every evaluation is
// BOUND: accepted, rejected, NaN/infinite or without residuals; scalar, array, vector, matrix and user-defined parameters; dense and sparse Hessians
// BOUND: runs of up to 16 iterations with fixed answers but for one evaluation
#include "same.h"
#include "large.h"
template <typename X> static X sized(int n) {
  X x{};
  if constexpr (traits::params_trait<X>::Dims == Dynamic) x.resize(n);
  return x;
}
template <int N> static void full(Eval<N> &v) {
  if constexpr (N > 2) {
    large(v.h, 1, 2.5);
    for (int i = 0; i < N; ++i) v.g[i] = i % 3 ? 1.5 * i - 4 : vf_range("g", -10, 10);
  } else for (int i = 0; i < N; ++i) {
    v.g[i] = vf_range("g", -10, 10);
    for (int j = 0; j < N; ++j) v.h[i][j] = i == j ? vf_range("h", 2, 10) : i < j ? vf_range("h", -1, 1) : v.h[j][i];
  }
}
// A function that fills the upper triangle of the Hessian only.
template <int N, typename F> static auto upper_only(F f) {
  return [f](const auto &x, auto &g, auto &H) -> Cost {
    const Cost c = f(x, g, H);
    if constexpr (!traits::is_nullptr_v<decltype(H)>) {
      if constexpr (traits::is_sparse_matrix_v<std::decay_t<decltype(H)>>) { if (H.rows() == N) H = SparseMat(H.template triangularView<Eigen::Upper>()); }
      else for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) H(i, j) = 0;
    }
    return c;
  };
}
template <int K, int N, typename X, typename Y, typename H_t = void> static void two(int iters, bool spoiled, bool upper = false, bool ldlt = true, int pattern = 0) {
  constexpr bool sparse = !std::is_void_v<H_t>;
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.max_consec_failures = spoiled ? 2 : 0;
  o.hessian.use_ldlt = ldlt;
  Trace<N, 24> t, u;
  const int at = pattern ? vf_pick("at", 0, iters - 1) : 0;
  auto answer = [&](Eval<N> &v, int n) {
    if (pattern) {
      long_answer(v, n, pattern, at);
      if (spoiled && n == at) spoil<K>(v, vf_pick("kind", 0, 4));
      return;
    }
    v.cost = vf_range("cost", 1, 10);
    v.n = vf_int("residuals", 1, 5);
    full(v);
    if (spoiled) spoil<K>(v, vf_pick("kind", 0, 4));
  };
  X x = sized<X>(N);
  Y y = sized<Y>(N);
  for (int i = 0; i < N; ++i) { const double v = vf_range("x", -10, 10); set(x, i, v); set(y, i, v); }
  Opt<K, X> opt(o);
  const Output a = opt(x, user<K>(t, answer));
  auto again = like(t);
  if (upper) o.hessian.H_is_full = false;
  Opt<K, Y, H_t> other(o);
  Output b;
  if constexpr (K != GD) {
    if (upper) b = other(y, upper_only<N>(user<K>(u, again)));
    else b = other(y, user<K>(u, again));
  } else b = other(y, user<K>(u, again));
  same_run(t, u, a, b, x, y, !sparse, upper && ldlt);
}
template <int K> static void pairs() {
  const int th = vf_tier();
  switch (vf_case()) {
    case 0: two<K, 1, double, Vector<double, 1>>(3, true); break;
    case 1: two<K, 1, double, VecX>(3, true); break;
    case 2: two<K, 2, Vec2, VecX>(2, false); break;
    case 3: two<K, 2, Vec2, std::array<double, 2>>(1 + th, true); break;
    case 4: two<K, 2, Vec2, Pose<double>>(2, false); break;
    case 5: two<K, 2, VecX, Matrix<double, 1, 2>>(1, true); break;
    case 6: two<K, 2, Vec2, std::vector<double>>(2, false); break;
    case 7: two<K, 2, Vec2, VecX>(12, true, false, true, 3); break;
    case 8: two<K, 1, double, VecX>(16, true, false, true, -8); break;
    case 9: if constexpr (K == GD) two<K, 5, Vector<double, 5>, VecX>(2, true); else two<K, 1, double, VecX, SparseMat>(2, true); break;
    case 10: if constexpr (K != GD) two<K, 2, Vec2, VecX, SparseMat>(2, false); break;
    case 11: if constexpr (K != GD) two<K, 2, Vec2, VecX, SparseMat>(1 + th, false, true); break;
    case 12: if constexpr (K != GD) two<K, 2, Vec2, Vec2>(2, false, true); break;
    case 13: if constexpr (K != GD) two<K, 2, Vec2, VecX>(1, false, true, false); break;
    case 14: if constexpr (K != GD) two<K, 2, Vec2, VecX>(1, false, false, false); break;
    case 15: two<K, 4, Vec4, VecX>(2, false); break;
    case 16: two<K, 4, Mat2, std::vector<double>>(1 + th, true); break;
    case 17: if constexpr (K != GD) two<K, 3, VecX, VecX, SparseMat>(10, false, false, true, -4); break;
    case 18: if constexpr (K != GD) two<K, 5, Vector<double, 5>, VecX, SparseMat>(2, false); break;
    default: if constexpr (K != GD) two<K, 4, Vec4, VecX>(2, false, true); break;
  }
}
// VF: h_gn cases=20
extern "C" void h_gn() {
  pairs<GN>();
  vf_reach("end");
}
// VF: h_lm cases=20
extern "C" void h_lm() {
  pairs<LM>();
  vf_reach("end");
}
// VF: h_gd cases=10
extern "C" void h_gd() {
  pairs<GD>();
  vf_reach("end");
}

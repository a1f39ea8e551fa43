// BOUND: runs of up to 3 iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent, 1..2 parameters, full symmetric systems, dense static,
// BOUND: dense dynamic and sparse Hessians; every evaluation is accepted, rejected, NaN, without residuals or unsolvable; 1..70000 residuals
// BOUND: 4 and 5 parameters with fixed Hessians; runs of up to 14 iterations with fixed answers but for one evaluation
#include "opt.h"
#include "large.h"
template <typename M> static double at(const M &m, int i, int j) {
  if constexpr (requires { m.coeff(i, j); }) return m.coeff(i, j);
  else return m(i, j);
}
template <int N> static void full(Eval<N> &v, int n) {
  if constexpr (N > 2) {
    large(v.h, n % N, 2.5 + n);
    for (int i = 0; i < N; ++i) v.g[i] = i % 3 ? 1.5 * i - 4 : vf_range("g", -10, 10);
  } else
  for (int i = 0; i < N; ++i) {
    v.g[i] = vf_range("g", -10, 10);
    for (int j = 0; j < N; ++j) v.h[i][j] = i == j ? vf_range("h", 2, 10) : i < j ? vf_range("h", -1, 1) : v.h[j][i];
  }
}
template <int K, int N, typename X, typename H_t = void> static void hessian(X x, int iters, bool spoiled, bool upper = false, int pattern = 0) {
  constexpr bool sparse = std::is_same_v<H_t, SparseMat>;
  using M = std::conditional_t<sparse, SparseMat, MatX>;
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.max_consec_failures = spoiled ? 2 : 0;
  o.hessian.save_last = vf_bool("save");
  if (upper) o.hessian.H_is_full = false;
  Trace<N, 24> t;
  const int when = pattern ? vf_pick("at", 0, iters - 1) : 0;
  auto answer = [&](Eval<N> &v, int n) {
    if (pattern) long_answer(v, n, pattern, when);
    else {
      v.cost = vf_range("cost", 1, 10);
      v.n = vf_int("residuals", 1, 70000);
      full(v, n);
    }
    if (spoiled && (!pattern || n == when)) spoil<K>(v, vf_pick("kind", 0, K == GD || sparse ? 3 : 4));
  };
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -10, 10));
  Opt<K, X, H_t> opt(o);
  auto f = user<K>(t, answer);
  Output out;
  if constexpr (K == GD) out = opt(x, f);
  else out = opt(x, [&](const auto &y, auto &g, auto &H) -> Cost {
    const Cost c = f(y, g, H);
    if constexpr (!traits::is_nullptr_v<decltype(H)>)
      if (upper) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) H.coeffRef(i, j) = 0;
    return c;
  });
  const Eval<N> *last = nullptr, *best = nullptr;
  for (int i = 0; i < t.n; ++i) {
    if (t.e[i].built) last = &t.e[i];
    if (t.e[i].usable && t.e[i].solvable && (!best || t.e[i].cost < best->cost)) best = &t.e[i];
  }
  vf_assert(out.has_final_hessian() == (K != GD && o.hessian.save_last), "a Hessian is reported if asked for");
  if (best) vf_assert(out.final_cost.num_resisuals == best->n, "number of residuals of the final cost");
  if (!out.has_final_hessian()) { vf_assert(!out.template Covariance<M>().has_value(), "no covariance without Hessian"); return; }
  vf_assert(std::holds_alternative<M>(out.final_hessian), "kind of Hessian");
  const M &H = std::get<M>(out.final_hessian);
  vf_assert(H.rows() == N && H.cols() == N, "size of the Hessian");
  for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) {
    vf_eq(at(H, i, j), last->h[i][j], "Hessian of the last built evaluation");
    if (!upper) vf_eq(at(H, j, i), last->h[i][j], "Hessian of the last built evaluation");
  }
  if (!last->solvable || !best) return;
  const bool rescaled = vf_bool("rescaled");
  const auto C = out.template Covariance<M>(rescaled);
  vf_assert(C.has_value(), "covariance of a definite Hessian");
  if (!C) return;
  const double s = rescaled && best->n > N ? best->cost * best->cost / (best->n - N) : 1;
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    double r = 0;
    for (int k = 0; k < N; ++k) r += last->h[i][k] * at(*C, k, j);
    vf_eq(r, i == j ? s : 0, "covariance is the inverse of the Hessian, rescaled if asked for");
  }
}
template <int K> static void shapes() {
  const int th = vf_tier();
  switch (vf_case()) {
    case 0: hessian<K, 1>(0.0, 3 + th, true); break;
    case 1: hessian<K, 2>(Vec2(0, 0), 2, false); break;
    case 2: hessian<K, 2>(VecX(2), 2, false); break;
    case 3: hessian<K, 2>(Vec2(0, 0), 1, true, true); break;
    case 4: hessian<K, 1, VecX, SparseMat>(VecX(1), 2, true); break;
    case 5: hessian<K, 2, VecX, SparseMat>(VecX(2), 1 + th, false, vf_bool("upper")); break;
    case 6: hessian<K, 4>(Vec4(0, 0, 0, 0), 2, false); break;
    case 7: hessian<K, 5>(VecX(5), 1, true); break;
    case 8: hessian<K, 4, VecX, SparseMat>(VecX(4), 2, false); break;
    case 9: hessian<K, 1>(0.0, 14, true, false, 3); break;
    case 10: hessian<K, 2>(VecX(2), 14, true, false, -6); break;
    default: hessian<K, 3, VecX, SparseMat>(VecX(3), 10, false, false, 2); break;
  }
}
// VF: h_gn cases=12
extern "C" void h_gn() {
  shapes<GN>();
  vf_reach("end");
}
// VF: h_lm cases=12
extern "C" void h_lm() {
  shapes<LM>();
  vf_reach("end");
}
// VF: h_gd cases=2
extern "C" void h_gd() {
  if (vf_case() == 0) hessian<GD, 1>(0.0, 3, true);
  else hessian<GD, 2>(Vec2(0, 0), 2, false);
  vf_reach("end");
}

// The covariance and largest standard deviation of any saved Hessian.
template <typename M> static M matrix(double a, double b, double c) {
  M m(2, 2);
  m.coeffRef(0, 0) = a; m.coeffRef(0, 1) = b; m.coeffRef(1, 0) = b; m.coeffRef(1, 1) = c;
  return m;
}
template <typename M> static void saved() {
  Output out;
  const bool singular = vf_bool("singular");
  double a = vf_range("a", 0.1, 10), b = vf_range("b", -10, 10), c;
  if (singular) c = b * b / a;
  else c = vf_range("c", 0.1, 10);
  vf_assume(singular || a * c - b * b > 1e-3);
  out.final_hessian = matrix<M>(a, b, c);
  out.final_cost = Cost(vf_range("cost", 0.1, 10), 3);
  const auto C = out.template Covariance<M>();
  vf_assert(C.has_value() == !singular, "a singular Hessian has no covariance");
  vf_assert(!out.template Covariance<std::conditional_t<std::is_same_v<M, MatX>, SparseMat, MatX>>().has_value(), "no covariance of the other kind");
  if (!C) return;
  const double d = a * c - b * b;
  vf_eq(at(*C, 0, 0), c / d, "covariance"); vf_eq(at(*C, 0, 1), -b / d, "covariance");
  vf_eq(at(*C, 1, 0), -b / d, "covariance"); vf_eq(at(*C, 1, 1), a / d, "covariance");
}
// VF: h_saved cases=2
extern "C" void h_saved() {
  if (vf_case() == 0) saved<MatX>();
  else saved<SparseMat>();
  vf_reach("end");
}
template <typename S, typename H_t> static void deviation() {
  const Options o = quiet();
  S s(o);
  Vec2 x(0, 0);
  if constexpr (S::Dims == Dynamic) s.resize(2); else s.resize();
  const double a = vf_range("a", 0.1, 10), b = vf_range("b", -10, 10), c = vf_range("c", 0.1, 10);
  vf_assume(a * c - b * b > 1e-3);
  const double lambda = o.lm.damping_init;
  const auto fill = [&](const auto &, auto &g, auto &H) -> Cost {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) g.setZero();
    if constexpr (!traits::is_nullptr_v<decltype(H)>) H = matrix<H_t>(a, b, c);
    return Cost(1.0, 3);
  };
  vf_assert(s.Build(x, fill, true), "built");
  const double f = std::is_same_v<S, solvers::SolverLM<H_t>> ? 1 + lambda : 1;
  const double got = s.MaxStdDev(false), d = a * c - b * b, m = a < c ? c : a;
  vf_assert(got >= 0, "a standard deviation");
  vf_eq(got * got * d, m, "largest standard deviation");
  const double damped = s.MaxStdDev(true), dd = a * c * f * f - b * b;
  vf_assert(damped >= 0, "a standard deviation");
  vf_eq(damped * damped * dd, m * f, "largest damped standard deviation");
  const auto C = s.Covariance();
  vf_assert(C.has_value(), "covariance of a definite system");
  if (!C) return;
  vf_eq(at(*C, 0, 0) * d, c, "covariance of the solver"); vf_eq(at(*C, 0, 1) * d, -b, "covariance of the solver"); vf_eq(at(*C, 1, 1) * d, a, "covariance of the solver");
}
// VF: h_deviation cases=5
extern "C" void h_deviation() {
  switch (vf_case()) {
    case 0: deviation<solvers::SolverGN<Mat2>, Mat2>(); break;
    case 1: deviation<solvers::SolverLM<Mat2>, Mat2>(); break;
    case 2: deviation<solvers::SolverGN<MatX>, MatX>(); break;
    case 3: deviation<solvers::SolverLM<MatX>, MatX>(); break;
    default: deviation<solvers::SolverLM<SparseMat>, SparseMat>(); break;
  }
  vf_reach("end");
}

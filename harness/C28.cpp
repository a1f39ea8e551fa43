// BOUND: runs of up to 3 iterations, 1..2 parameters (4..5 in runs of 2 iterations), statically and dynamically sized and sparse, with user-supplied derivatives answered freely (also
// BOUND: rejected and failing evaluations), and of affine or quadratic residuals differentiated automatically or numerically
#include "same.h"
static constexpr Options::Solver solvers_[] = {Options::Solver::GaussNewton, Options::Solver::LevenbergMarquardt, Options::Solver::GradientDescent};

template <int K, int N, typename X, typename H_t = void> static void supplied(X x, int iters) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.max_consec_failures = 2;
  o.solver_type = solvers_[K];
  Trace<N, 9> t, u;
  auto answer = [&](Eval<N> &v, int) {
    v.cost = vf_range("cost", 1, 10);
    system(v, N > 2 || traits::params_trait<X>::Dims == Dynamic);
    spoil<K>(v, vf_pick("kind", 0, K == GD || !std::is_void_v<H_t> ? 3 : 4));
  };
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -10, 10));
  X y = x;
  Opt<K, X, H_t> opt(o);
  const Output a = opt(x, user<K>(t, answer));
  auto again = like(t);
  const auto f = user<K>(u, again);
  Output b;
  if constexpr (std::is_void_v<H_t>) {
    if constexpr (K == GD) b = Optimize(y, [&](const auto &z, auto &g) -> Cost { return f(z, g); }, o);
    else b = Optimize(y, [&](const auto &z, auto &g, auto &H) -> Cost { return f(z, g, H); }, o);
  } else {
    const auto sp = [&](const auto &z, auto &g, SparseMat &H) -> Cost { return f(z, g, H); };
    b = Optimize(y, sp, o);
  }
  same_run(t, u, a, b, x, y);
  vf_assert(!b.num_diff_used, "supplied derivatives are used");
}
template <int K> static void shapes() {
  switch (vf_case()) {
    case 0: supplied<K, 1>(0.0, 3); break;
    case 1: supplied<K, 2>(Vec2(0, 0), 2); break;
    case 2: supplied<K, 2>(VecX(2), 2); break;
    case 3: supplied<K, 5>(VecX(5), 2); break;
    case 4: supplied<K, 4>(Matrix<double, 2, 2>(), 2); break;
    case 5: if constexpr (K != GD) supplied<K, 1, VecX, SparseMat>(VecX(1), 2); break;
    default: if constexpr (K != GD) supplied<K, 4, VecX, SparseMat>(VecX(4), 1); break;
  }
}
// VF: h_supplied_gn cases=7
extern "C" void h_supplied_gn() {
  shapes<GN>();
  vf_reach("end");
}
// VF: h_supplied_lm cases=7
extern "C" void h_supplied_lm() {
  shapes<LM>();
  vf_reach("end");
}
// VF: h_supplied_gd cases=5
extern "C" void h_supplied_gd() {
  shapes<GD>();
  vf_reach("end");
}

// Residuals a*x + b (+ c*x^2), on plain numbers only or on any numbers.
struct Count { int plain = 0, jets = 0; };
template <int K, int N, bool Jets, bool Scalar_, typename X> static void differentiated(X x, int iters, bool quadratic) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.solver_type = solvers_[K];
  double A[2][N], b[2], c = quadratic ? 0.5 : 0;
  for (int i = 0; i < 2; ++i) {
    b[i] = i || !quadratic ? vf_range("b", -5, 5) : 1;
    for (int j = 0; j < N; ++j) A[i][j] = 1 + 3 * (i != j);
  }
  Count n;
  const auto any = [&](const auto &z) {
    using Z = std::decay_t<decltype(par(z, 0))>;
    if constexpr (std::is_same_v<Z, double>) n.plain++;
    else n.jets++;
    if constexpr (Scalar_) {
      Z r = Z(b[0]) + c * par(z, 0) * par(z, 0);
      for (int j = 0; j < N; ++j) r += A[0][j] * par(z, j);
      return r;
    } else {
      Vector<Z, 2> r;
      for (int i = 0; i < 2; ++i) {
        r[i] = Z(b[i]) + c * par(z, 0) * par(z, 0);
        for (int j = 0; j < N; ++j) r[i] += A[i][j] * par(z, j);
      }
      return r;
    }
  };
  const auto plain = [&](const X &z) { return any(z); };
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -5, 5));
  X y = x;
  Output p, q;
  Opt<K, X> opt(o);
  if constexpr (Jets) {
    p = opt(x, any);
    n = {};
    q = Optimize(y, any, o);
    vf_assert(n.jets > 0 && n.plain == 0 && !q.num_diff_used, "automatic differentiation is used");
  } else {
    if constexpr (K == GD) { auto f = diff::CreateNumDiffFunc1(x, plain); p = opt.OptimizeAcc(x, f); }
    else { auto f = diff::CreateNumDiffFunc2(x, plain); p = opt.OptimizeAcc(x, f); }
    n = {};
    q = Optimize(y, plain, o);
    vf_assert(n.jets == 0 && n.plain > 0, "numerical differentiation is used");
    vf_assert(q.num_diff_used, "numerical differentiation is reported");
    p.num_diff_used = true;
  }
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), par(y, i), "same parameters");
  same_output(p, q, N);
}
template <int K, bool Jets> static void kinds() {
  using V1 = std::conditional_t<Jets, VecX, std::array<double, 1>>;
  using V2 = std::conditional_t<Jets, Vec2, Pose<double>>;
  V1 v1;
  if constexpr (Jets) v1.resize(1);
  switch (vf_case()) {
    case 0: differentiated<K, 1, Jets, true>(0.0, 3, false); break;
    case 1: differentiated<K, 1, Jets, true>(v1, 2, true); break;
    case 2: differentiated<K, 2, Jets, true>(V2(0, 0), 2, false); break;
    case 3: if constexpr (K != GD) differentiated<K, 1, Jets, false>(0.0, 1, true); break;
    default: if constexpr (K != GD) differentiated<K, 2, Jets, false>(V2(0, 0), 2, false); break;
  }
}
// VF: h_auto_gn cases=5
extern "C" void h_auto_gn() {
  kinds<GN, true>();
  vf_reach("end");
}
// VF: h_auto_lm cases=5
extern "C" void h_auto_lm() {
  kinds<LM, true>();
  vf_reach("end");
}
// VF: h_auto_gd cases=3
extern "C" void h_auto_gd() {
  kinds<GD, true>();
  vf_reach("end");
}
// VF: h_num_gn cases=5
extern "C" void h_num_gn() {
  kinds<GN, false>();
  vf_reach("end");
}
// VF: h_num_lm cases=5
extern "C" void h_num_lm() {
  kinds<LM, false>();
  vf_reach("end");
}
// VF: h_num_gd cases=3
extern "C" void h_num_gd() {
  kinds<GD, false>();
  vf_reach("end");
}

// What a solver cannot handle is rejected before the function is called.
template <typename F> static bool rejected(F &&f, const Options &o) {
  Vec2 x(vf_range("x", -5, 5), vf_range("x", -5, 5));
  const Vec2 before = x;
  bool thrown = false;
  try { Optimize(x, f, o); } catch (const std::invalid_argument &) { thrown = true; }
  if (thrown) for (int i = 0; i < 2; ++i) vf_eq(x[i], before[i], "a rejected problem leaves the parameters alone");
  return thrown;
}
// VF: h_rejected cases=5
extern "C" void h_rejected() {
  int calls = 0;
  Options o = endless(0);
  const auto gradient = [&](const auto &, auto &g) -> Cost { calls++; g.setOnes(); return Cost(1.0); };
  const auto hessian = [&](const auto &, auto &g, auto &H) -> Cost {
    calls++;
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g.setOnes(); H.setIdentity(); }
    return Cost(1.0);
  };
  const auto residuals = [&](const auto &x) { calls++; return x; };
  const auto scalar = [&](const auto &x) { calls++; return x[0]; };
  switch (vf_case()) {
    case 0: o.solver_type = Options::Solver::GaussNewton; vf_assert(rejected(gradient, o), "Gauss-Newton needs a Hessian"); break;
    case 1: o.solver_type = Options::Solver::LevenbergMarquardt; vf_assert(rejected(gradient, o), "Levenberg-Marquardt needs a Hessian"); break;
    case 2: o.solver_type = Options::Solver::GradientDescent; vf_assert(rejected(residuals, o), "gradient descent needs a scalar cost"); break;
    case 3: o.solver_type = Options::Solver::GradientDescent; vf_assert(rejected(hessian, o), "gradient descent needs a gradient"); break;
    default: {
      o.solver_type = static_cast<Options::Solver>(77);
      vf_assert(rejected(hessian, o), "unknown solver"); vf_assert(rejected(residuals, o), "unknown solver"); vf_assert(rejected(gradient, o), "unknown solver"); vf_assert(rejected(scalar, o), "unknown solver");
    }
  }
  vf_assert(calls == 0, "a rejected function is not called");
  vf_reach("end");
}

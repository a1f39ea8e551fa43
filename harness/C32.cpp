// BOUND: runs of up to 2 (thorough: 3) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent, 1..2 parameters (4 in a run of 1), dense and sparse; every evaluation is accepted,
// BOUND: rejected, NaN/infinite, without residuals, unsolvable or singular; every combination of the printing options (some switched together)
// BOUND: runs of up to 12 iterations with fixed answers but for one evaluation
// What is printed is evaluated but not turned into text.
#define VF_LOG_EVAL 1
#include "same.h"
template <typename X> static X sized(int n) {
  X x{};
  if constexpr (traits::params_trait<X>::Dims == Dynamic) x.resize(n);
  return x;
}
static void logging(Options &o) {
  o.log.enable = true;
  o.log.print_max_stdev = vf_bool("deviation");
  o.log.print_failure = vf_bool("failure");
  o.log.print_x = vf_bool("x printed");
  o.log.print_emoji = o.log.print_dx = o.log.print_inliers = o.log.print_t = o.log.print_J_jet = vf_bool("others");
}
template <int K, int N, typename X, typename H_t = void> static void logged(int iters, bool spoiled, bool criteria, int pattern = 0) {
  constexpr bool sparse = !std::is_void_v<H_t>;
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.max_consec_failures = spoiled ? 2 : 0;
  if (criteria) {
    switch (vf_pick("criterion", 0, 4)) {
      case 0: o.min_error = 5; break;
      case 1: o.min_rerr_dec = 0.5; break;
      case 2: o.min_step_norm2 = 0.5; break;
      case 3: o.min_grad_norm2 = 0.5; break;
      default: o.stop_callback = [](double err, double, double) { return err < 3; }; break;
    }
  }
  Trace<N, 24> t, u;
  const int at = pattern ? vf_pick("at", 0, iters - 1) : 0;
  auto answer = [&](Eval<N> &v, int n) {
    if (pattern) long_answer(v, n, pattern, at);
    else {
      v.cost = vf_range("cost", 1, 10);
      system(v, true);
    }
    if (spoiled && (!pattern || n == at)) {
      const int kind = vf_pick("kind", 0, K == GD || sparse ? 3 : 6);
      if (kind == 6) { spoil<K>(v, NanCost); spoil<K>(v, Unsolvable); }
      else if (kind == 5) { for (int i = 0; i < N; ++i) v.h[i][i] = i ? v.h[i][i] : 0; }
      else spoil<K>(v, kind);
    }
  };
  X x = sized<X>(N);
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -10, 10));
  X y = x;
  Opt<K, X, H_t> silent(o);
  const Output a = silent(x, user<K>(t, answer));
  logging(o);
  Opt<K, X, H_t> loud(o);
  auto again = like(t);
  const Output b = loud(y, user<K>(u, again));
  same_run(t, u, a, b, x, y);
}
template <int K> static void shapes() {
  switch (vf_case()) {
    case 0: logged<K, 1, double>(2 + vf_tier(), true, false); break;
    case 1: logged<K, 1, VecX>(2, false, true); break;
    case 2: logged<K, 2, Vec2>(2, false, false); break;
    case 3: logged<K, 2, VecX>(1, true, false); break;
    case 4: logged<K, 2, Pose<double>>(1, true, false); break;
    case 5: logged<K, 4, VecX>(1, true, false); break;
    case 6: logged<K, 4, Mat2>(1, true, false); break;
    case 7: logged<K, 1, double>(8, true, false, 3); break;
    case 8: logged<K, 2, VecX>(12, false, false, -6); break;
    case 9: if constexpr (K != GD) logged<K, 1, VecX, SparseMat>(2, true, false); break;
    default: if constexpr (K != GD) logged<K, 3, VecX, SparseMat>(1, true, false); break;
  }
}
// VF: h_gn cases=11
extern "C" void h_gn() {
  shapes<GN>();
  vf_reach("end");
}
// VF: h_lm cases=11
extern "C" void h_lm() {
  shapes<LM>();
  vf_reach("end");
}
// VF: h_gd cases=9
extern "C" void h_gd() {
  shapes<GD>();
  vf_reach("end");
}

// Differentiated residuals: a*x + b.
template <bool Jets, int N, typename X> static void differentiated(X x) {
  vf_sleep_us("start", 0);
  Options o = endless(1);
  o.solver_type = vf_bool("lm") ? Options::Solver::LevenbergMarquardt : Options::Solver::GaussNewton;
  double b[2] = {vf_range("b", -5, 5), vf_range("b", -5, 5)};
  const bool flat = vf_bool("flat");
  const auto any = [&](const auto &z) {
    using Z = std::decay_t<decltype(par(z, 0))>;
    Vector<Z, 2> r;
    for (int i = 0; i < 2; ++i) {
      r[i] = Z(b[i]);
      for (int j = 0; j < N; ++j) r[i] += (flat ? 0.0 : 1.0 + 3 * (i != j)) * par(z, j);
    }
    return r;
  };
  const auto plain = [&](const X &z) { return any(z); };
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -5, 5));
  X y = x;
  Output p, q;
  if constexpr (Jets) p = Optimize(x, any, o);
  else p = Optimize(x, plain, o);
  logging(o);
  if constexpr (Jets) q = Optimize(y, any, o);
  else q = Optimize(y, plain, o);
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), par(y, i), "same parameters");
  same_output(p, q, N);
}
// VF: h_differentiated cases=4
extern "C" void h_differentiated() {
  switch (vf_case()) {
    case 0: differentiated<true, 1>(0.0); break;
    case 1: differentiated<true, 2>(Vec2(0, 0)); break;
    case 2: differentiated<false, 1>(0.0); break;
    default: differentiated<true, 1>(VecX(1)); break;
  }
  vf_reach("end");
}

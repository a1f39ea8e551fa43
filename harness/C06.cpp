// BOUND: runs of up to 4 iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent in 1..2 parameters (2 iterations: 4 parameters, also as a matrix); one answer, at any evaluation, with a NaN or infinite
// BOUND: cost, no residuals, a NaN or infinite gradient or Hessian entry, or an unsolvable Hessian (then repeated); limits of 0..3 failures; empty parameters
// BOUND: the same at any evaluation of runs of 15 iterations with fixed other answers
#include "opt.h"

enum { BadCost, None, BadGradient, BadHessian, Indefinite, BadCoupling, BadBoth };
template <int K, int N, typename X, typename H = void> static void injected(X x, bool timed, bool ldlt = true, int iters = 3, int pattern = 0) {
  const double inf = std::numeric_limits<double>::infinity();
  vf_sleep_us("start", 0);
  constexpr bool second = K != GD;
  Options o = endless(std::is_void_v<H> ? iters : 2);
  o.hessian.use_ldlt = ldlt;
  const int kind = vf_pick("kind", 0, !second ? 2 : 6), at = vf_pick("at", 0, iters);
  vf_assume(N > 1 || kind != BadCoupling);
  vf_assume(ldlt || kind <= BadGradient);  // the plain inverse is documented as unchecked
  if (!std::is_void_v<H>) vf_assume(at < 3 && !(kind == BadCoupling && at));
  o.max_consec_failures = vf_pick("consecutive", kind >= BadGradient && K != GD ? 1 : 0, 3);
  if (timed) o.max_duration_ms = 0.9995;
  const double bad = vf_bool("nan") ? std::numeric_limits<double>::quiet_NaN() : vf_bool("negative") ? -inf : inf;
  const int where = vf_pick("where", 0, N - 1);
  Trace<N, 40> t;
  bool hit = false;  // the answer was given
  auto answer = [&](Eval<N> &v, int n) {
    if (pattern) {
      v.cost = patterned(n, pattern);
      for (int i = 0; i < N; ++i) { v.g[i] = n % 4 - 1.5; v.h[i][i] = 2; }
    } else {
      v.cost = vf_range("cost", 1, 10);
      system(v, true);
    }
    if (timed && n == at) vf_sleep_us("slow", 5000);
    if (!(n == at || (kind >= BadGradient && n > at))) return;
    if (kind >= BadGradient && !v.built) { vf_assume(n != at); return; }
    hit = true;
    switch (kind) {
      case BadCost: v.cost = bad; break;
      case None: v.n = 0; break;
      case BadGradient: v.g[where] = bad; break;
      case BadHessian: v.h[where][where] = bad; break;
      case BadBoth: v.cost = bad; v.h[where][where] = -1; break;
      case BadCoupling: v.h[0][N - 1] = v.h[N - 1][0] = bad; break;
      default: v.h[where][where] = -1;
    }
    v.usable = false;
  };
  double acc[N], best = std::numeric_limits<double>::max(), fin[N];
  for (int i = 0; i < N; ++i) set(x, i, acc[i] = vf_range("x", -10, 10));
  Opt<K, X, H> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  bool any = false;
  for (int i = 0; i < t.n; ++i) {
    const Eval<N> &v = t.e[i];
    for (int k = 0; k < N; ++k) vf_assert(v.x[k] < 1e9 && v.x[k] > -1e9, "parameters stay finite");
    if (v.usable && (!any || v.cost < best)) {
      best = v.cost;
      for (int k = 0; k < N; ++k) acc[k] = v.x[k];
      any = true;
    }
  }
  for (int k = 0; k < N; ++k) { fin[k] = par(x, k); vf_assert(fin[k] < 1e9 && fin[k] > -1e9, "parameters stay finite"); }
  if (!hit) return;
  vf_assert(!out.Succeeded() && !out.Converged(), "not reported as succeeded");
  switch (kind) {
    case BadBoth:
    case BadCost: vf_assert(out.stop_reason == kSystemHasNaNOrInf, "NaN or infinite cost"); break;
    case None: vf_assert(out.stop_reason == kSkipped, "no residuals"); break;
    case Indefinite: vf_assert(out.stop_reason == kSolverFailed, "unsolvable system"); break;
    default: vf_assert(out.stop_reason == kSystemHasNaNOrInf || out.stop_reason == kSolverFailed, "NaN or infinite derivatives");
  }
  vf_assert(near<N>(fin, acc), "the parameters stay the last accepted ones");
  vf_eq(out.final_cost.cost, best, "the final cost stays the last accepted one");
}
template <int K> static void shapes() {
  switch (vf_case()) {
    case 0: injected<K, 1>(0.0, false); break;
    case 1: injected<K, 2>(Vec2(0, 0), false); break;
    case 2: injected<K, 1>(VecX(1), false); break;
    case 3: injected<K, 1>(0.0, true); break;
    case 4: injected<K, 4>(VecX(4), false, true, 1); break;
    case 5: injected<K, 4>(Matrix<double, 2, 2>(), false, true, 1); break;
    case 6: injected<K, 1>(0.0, false, true, 14, 3); break;
    case 7: injected<K, 1>(0.0, false, true, 14, -6); break;
    case 8: injected<K, 2>(VecX(2), false, false); break;
    default: injected<K, 2, VecX, SparseMatrix<double>>(VecX(2), false); break;
  }
}
// VF: h_injected_gn cases=10
extern "C" void h_injected_gn() {
  shapes<GN>();
  vf_reach("injected_gn");
}
// VF: h_injected_lm cases=10
extern "C" void h_injected_lm() {
  shapes<LM>();
  vf_reach("injected_lm");
}
// VF: h_injected_gd cases=8
extern "C" void h_injected_gd() {
  shapes<GD>();
  vf_reach("injected_gd");
}
template <int K> static void empty() {
  vf_sleep_us("start", 0);
  Options o = endless(3);
  VecX x(0);
  int calls = 0;
  Opt<K, VecX> opt(o);
  const auto f = [&](auto &...) { ++calls; return Cost(1.0, 1); };
  Output out;
  if constexpr (K == GD) out = opt(x, [&](const auto &, auto &g) -> Cost { return f(g); });
  else out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost { return f(g, H); });
  vf_assert(calls == 0 && out.stop_reason == kSkipped && !out.Succeeded() && x.size() == 0, "no parameters");
}
// VF: h_empty cases=3
extern "C" void h_empty() {
  if (vf_case() == 0) empty<GN>();
  else if (vf_case() == 1) empty<LM>();
  else empty<GD>();
  vf_reach("empty");
}

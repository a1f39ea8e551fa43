// BOUND: runs of up to 3 (thorough: 4) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent in 1..2 parameters (2 iterations: 4), any costs in [-10, 10] at least 1e-6 away from 0,
// BOUND: gradients and Hessians, any thresholds including 0, any callback answers
// BOUND: runs of 20 iterations (8 in three parameters) with fixed answers in which one criterion holds from any one iteration on
#include "opt.h"

// late: one criterion, any of them, holds at one iteration, any of them, and not before.
template <int K, int N, typename X> static void criteria(X x, int iters, bool late = false) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  const auto threshold = [&](const char *name, double most) { return float(late ? 1 / 1024. : vf_range(name, 0, most)); };
  const double e = o.min_error = threshold("min_error", 10), r = o.min_rerr_dec = threshold("min_rerr_dec", 2), d = o.min_step_norm2 = threshold("min_step_norm2", 10), m = o.min_grad_norm2 = threshold("min_grad_norm2", 10);
  const bool callback = late || vf_bool("callback");
  const int which = late ? vf_pick("which", 0, 4) : 0, at = late ? vf_pick("at", 0, iters) : 0;
  bool asked[30] = {};
  int n = 0, now = 0;
  if (callback) o.stop_callback = [&](double, double, double) { return asked[n++] = late ? which == 4 && now == at : vf_bool("stop"); };
  Trace<N, 30> t;
  double least = 1024;
  auto answer = [&](Eval<N> &v, int k) {
    now = k;
    if (late) {
      v.cost = k % 3 == 2 ? 200 + k : least * 0.875;
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { v.g[i] = 1e6; v.h[i][j] = i == j; }
      if (k == at) switch (which) {
        case 0: v.cost = 1 / 2048.; break;
        case 1: v.cost = least * (1 - 1 / 2048.); break;
        case 2: for (int i = 0; i < N; ++i) { v.h[i][i] = 1e20; if (K == GD) v.g[i] = 1e-3; } break;
        case 3: for (int i = 0; i < N; ++i) { v.g[i] = 1e-3; v.h[i][i] = 1e-3; } break;
      }
      if (v.cost < least) least = v.cost;
      return;
    }
    v.cost = vf_range("cost", -10, 10);
    vf_assume(v.cost > 1e-6 || v.cost < -1e-6);
    system(v, true);
  };
  for (int i = 0; i < N; ++i) set(x, i, 0);
  Opt<K, X> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  Steps<K, N> s(o);
  double best = 0;
  int used = 0;
  for (int i = 0; i < t.n; ++i) {
    const Eval<N> &v = t.e[i];
    s.solve(v);
    double g2 = 0;
    for (int k = 0; k < N; ++k) g2 += s.g[k] * s.g[k];
    const double rel = i && best > 0 ? (best - v.cost) / best : 0;
    StopReason reason = StopReason::kNone;
    if (e > 0 && v.cost < e) reason = StopReason::kMinError;
    else if (r > 0 && rel > 0 && rel < r) reason = StopReason::kMinRelError;
    else if (d > 0 && s.dx2 < d) reason = StopReason::kMinDeltaNorm;
    else if (m > 0 && g2 < m) reason = StopReason::kMinGradNorm;
    else if (callback && asked[used++]) reason = StopReason::kUserStopped;
    if (reason != StopReason::kNone) {
      vf_assert(i == t.n - 1, "stops at the first iteration at which a criterion holds");
      vf_assert(out.stop_reason == reason, "first criterion that holds is reported");
    } else if (i == t.n - 1) {
      vf_assert(t.n == iters && out.stop_reason == StopReason::kMaxIters, "does not stop when no criterion holds");
    }
    if (!i || v.cost < best) {
      if (i) s.good();
      best = v.cost;
    } else s.reject();
  }
  vf_assert(used == n, "callback only asked when no other criterion holds");
  vf_assert(out.Succeeded() && out.Converged() == (out.stop_reason == StopReason::kMinError || out.stop_reason == StopReason::kMinRelError || out.stop_reason == StopReason::kMinDeltaNorm || out.stop_reason == StopReason::kMinGradNorm), "classification of the run");
}
template <int K> static void shapes() {
  switch (vf_case()) {
    case 0: criteria<K, 1>(0.0, 3 + vf_tier()); break;
    case 1: criteria<K, 2>(Vec2(0, 0), 2); break;
    case 2: criteria<K, 2>(VecX(2), 2); break;
    case 3: criteria<K, 1>(0.0, 20, true); break;
    case 4: criteria<K, 3>(VecX(3), 8, true); break;
    default: criteria<K, 4>(Vec4(0, 0, 0, 0), 2); break;
  }
}
// VF: h_criteria_gn cases=6
extern "C" void h_criteria_gn() {
  shapes<GN>();
  vf_reach("criteria_gn");
}
// VF: h_criteria_lm cases=6
extern "C" void h_criteria_lm() {
  shapes<LM>();
  vf_reach("criteria_lm");
}
// VF: h_criteria_gd cases=6
extern "C" void h_criteria_gd() {
  shapes<GD>();
  vf_reach("criteria_gd");
}
// VF: h_class
extern "C" void h_class() {
  Output out;
  out.stop_reason = StopReason(vf_pick("reason", -4, 9));
  const int r = out.stop_reason;
  vf_assert(out.Succeeded() == (r != kOutOfMemory && r != kSolverFailed && r != kSystemHasNaNOrInf && r != kSkipped), "succeeded");
  vf_assert(out.Converged() == (r == kMinError || r == kMinRelError || r == kMinDeltaNorm || r == kMinGradNorm), "converged");
  vf_reach("class");
}

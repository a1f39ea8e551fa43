// BOUND: runs of up to 5 (thorough: 7) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent, 1..2 parameters (scalar, static, dynamic),
// BOUND: every evaluation answers with any cost, 1..3 residuals, any gradient and any positive diagonal Hessian; runs of 300 iterations with two accepted costs; Levenberg-Marquardt also undamped
#include "opt.h"

template <int K, int N, typename X> static void history(X x, int iters, bool off = false) {
  vf_sleep_us("start", 0);
  const bool check = N == 1 && vf_bool("check_final_cost");
  Options o = endless(iters - (check ? 2 : 1));
  o.check_final_cost = check;
  if (off) o.lm.damping_init = 0;
  Trace<N, 8> t;
  auto answer = [](Eval<N> &v, int) {
    v.cost = vf_range("cost", -10, 10);
    v.n = vf_int("n", 1, 3);
    system(v);
  };
  for (int i = 0; i < N; ++i) set(x, i, vf_range("x", -10, 10));
  Opt<K, X> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  vf_assert(t.n == iters && out.num_iters == iters, "one evaluation per iteration");
  vf_assert(int(out.errs.size()) == t.n && int(out.deltas2.size()) == t.n && int(out.successes.size()) == t.n, "lengths of the histories");
  if (int(out.errs.size()) != t.n || int(out.deltas2.size()) != t.n || int(out.successes.size()) != t.n) return;
  Steps<K, N> s(o);
  double best = 0, rel = 0;
  bool known = true;
  int n = 0, rejected = 0;
  for (int i = 0; i < t.n; ++i) {
    const Eval<N> &v = t.e[i];
    s.solve(v);
    const bool accepted = i == 0 || v.cost < best;
    vf_eq(out.errs[i], v.cost, "cost history");
    vf_eq(out.deltas2[i], s.dx2, "step history");
    vf_assert(out.successes[i] == accepted, "successful exactly when the cost is below every accepted one");
    if (i) {
      if (accepted) s.good();
      else s.reject();
    }
    if (accepted) {
      known = i == 0 || best > 1e-6;
      rel = i && known ? (best - v.cost) / best : 0;
      best = v.cost;
      n = v.n;
    } else ++rejected;
  }
  vf_eq(out.final_cost.cost, best, "final cost is the one of the last successful iteration");
  vf_assert(out.final_cost.num_resisuals == n, "number of residuals of the final cost");
  for (int i = 0; i < t.n; ++i) vf_le(out.final_cost.cost, out.errs[i], "final cost is the minimum of the history");
  if (known) vf_eq(out.final_rerr_dec, rel, "relative decrease of the last accepted iteration");
  vf_assert(out.num_failures == rejected, "number of failures");
}
template <int K> static void shapes() {
  const bool th = vf_tier();
  switch (vf_case()) {
    case 0: history<K, 1>(0.0, th ? 7 : 5); break;
    case 1: history<K, 2>(Vec2(0, 0), th ? 5 : 4); break;
    case 2: history<K, 1>(VecX(1), th ? 5 : 4); break;
    default: history<K, 1>(0.0, th ? 5 : 4, true); break;
  }
}
// VF: h_history_gn cases=3
extern "C" void h_history_gn() {
  shapes<GN>();
  vf_reach("history_gn");
}
// The last case is without damping.
// VF: h_history_lm cases=4
extern "C" void h_history_lm() {
  shapes<LM>();
  vf_reach("history_lm");
}
// VF: h_history_gd cases=3
extern "C" void h_history_gd() {
  shapes<GD>();
  vf_reach("history_gd");
}
// Long runs: a best cost, many rejected ones, a better one and rejected ones again.
template <int K> static void longer() {
  vf_sleep_us("start", 0);
  const int iters = 300, at = vf_pick("better at", 0, 2) * 130 + 10;
  const double first = vf_range("first", 1, 10), worse = vf_range("worse", 10, 20), better = vf_range("better", 0.1, 0.9);
  int n = 0;
  double x = 0;
  Opt<K, double> opt(endless(iters - 1));
  const auto f = [&](auto &g) -> Cost {
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) g[0] = 1;
    const double c = n == 0 ? first : n == at ? better : worse;
    ++n;
    return Cost(c, 1);
  };
  Output out;
  if constexpr (K == GD) out = opt(x, [&](const auto &, auto &g) -> Cost { return f(g); });
  else out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost { if constexpr (!traits::is_nullptr_v<decltype(g)>) H(0, 0) = 1; return f(g); });
  vf_assert(n == iters && out.num_iters == iters, "iterations of a long run");
  vf_assert(out.num_failures == iters - 2, "failures of a long run");
  vf_assert(out.num_consec_failures == iters - 1 - at, "consecutive failures of a long run");
  vf_eq(out.final_cost.cost, better, "final cost of a long run");
  vf_assert(int(out.successes.size()) == iters && out.successes[0] && out.successes[at] && !out.successes[at - 1] && (at + 1 == iters || !out.successes[at + 1]), "successes of a long run");
}
// VF: h_long cases=3 steps=30000000
extern "C" void h_long() {
  if (vf_case() == 0) longer<GN>();
  else if (vf_case() == 1) longer<LM>();
  else longer<GD>();
  vf_reach("long");
}

// BOUND: runs of up to 10 (thorough: 11) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent in one parameter with any costs; limits 0..6 on consecutive and total failures
// BOUND: runs of up to 5 (thorough: 6) evaluations of which any may leave a system that cannot be solved, so that the iteration is tried again
// BOUND: limits of 5, 10, 100, 200 and 255 failures in runs that fail all the time, every third time or not at all
// BOUND: up to 200 attempts in a row that leave no solution, limits of 0, 3, 5, 10, 100 and 255
#include "opt.h"

template <int K> static void limits(int iters) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  const int mc = o.max_consec_failures = vf_pick("consecutive", 0, 6);
  const int mt = o.max_total_failures = vf_pick("total", 0, 6);
  Trace<1, 12> t;
  auto answer = [&](Eval<1> &v, int) {
    v.cost = vf_range("cost", 1, 10);
    v.g[0] = 1;
    v.h[0][0] = 2;
  };
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  double best = 0;
  int consec = 0, total = 0, at = 0;
  StopReason reason = StopReason::kMaxIters;
  for (int i = 0; i < t.n && reason == StopReason::kMaxIters; ++i) {
    at = i + 1;
    if (i == 0 || t.e[i].cost < best) {
      best = t.e[i].cost;
      consec = 0;
    } else {
      ++consec;
      ++total;
      if (mc && consec >= mc) reason = StopReason::kMaxConsecNoDecr;
      else if (mt && total >= mt) reason = StopReason::kMaxNoDecr;
    }
  }
  vf_assert(t.n == at, "no evaluation after a limit was reached");
  vf_assert(reason != StopReason::kMaxIters || t.n == iters, "no stop before a limit was reached");
  vf_assert(out.num_iters == t.n, "number of iterations");
  vf_assert(out.stop_reason == reason, "stop reason of the limit reached");
  vf_assert(out.num_failures == total, "total number of failures");
  vf_assert(out.num_consec_failures == consec, "number of consecutive failures");
}
// VF: h_limits_gn
extern "C" void h_limits_gn() {
  limits<GN>(vf_tier() ? 11 : 10);
  vf_reach("limits_gn");
}
// VF: h_limits_lm
extern "C" void h_limits_lm() {
  limits<LM>(vf_tier() ? 11 : 10);
  vf_reach("limits_lm");
}
// VF: h_limits_gd
extern "C" void h_limits_gd() {
  limits<GD>(vf_tier() ? 11 : 10);
  vf_reach("limits_gd");
}
// Attempts to solve the system that fail count as failures, and the iteration goes on with the next answer.
template <int K> static void retries(int evals) {
  vf_sleep_us("start", 0);
  Options o = endless(evals - 1);
  const int mc = o.max_consec_failures = vf_pick("consecutive", 0, 4);
  const int mt = o.max_total_failures = vf_pick("total", 0, 3);
  Trace<1, 12> t;
  auto answer = [&](Eval<1> &v, int i) {
    vf_assume(i < evals);
    v.cost = vf_range("cost", 1, 10);
    v.g[0] = 1;
    v.h[0][0] = 2;
    if (v.built && vf_bool("unsolvable")) spoil<K>(v, Unsolvable);
  };
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  double best = 0;
  int consec = 0, total = 0, iters = 0, at = 0;
  StopReason reason = StopReason::kMaxIters;
  for (int i = 0; i < t.n && reason == StopReason::kMaxIters; ++i) {
    at = i + 1;
    if (!t.e[i].solvable) {
      ++consec;
      ++total;
      if (mc && consec >= mc) { reason = StopReason::kSolverFailed; ++iters; }
      continue;
    }
    if (iters == 0 || t.e[i].cost < best) {
      best = t.e[i].cost;
      consec = 0;
    } else {
      ++consec;
      ++total;
      if (mc && consec >= mc) reason = StopReason::kMaxConsecNoDecr;
      else if (mt && total >= mt) reason = StopReason::kMaxNoDecr;
    }
    ++iters;
  }
  vf_assert(t.n == at, "no evaluation after a limit was reached");
  vf_assert(out.num_iters == iters, "number of iterations");
  vf_assert(out.stop_reason == reason, "stop reason of the limit reached");
  vf_assert(out.num_failures == total, "total number of failures");
  vf_assert(out.num_consec_failures == consec, "number of consecutive failures");
}
// VF: h_retries_gn
extern "C" void h_retries_gn() {
  retries<GN>(vf_tier() ? 6 : 5);
  vf_reach("retries_gn");
}
// VF: h_retries_lm
extern "C" void h_retries_lm() {
  retries<LM>(vf_tier() ? 6 : 5);
  vf_reach("retries_lm");
}
// Large limits.
template <int K> static void large() {
  vf_sleep_us("start", 0);
  const int sizes[] = {0, 5, 10, 100, 200, 255};
  const int mc = sizes[vf_pick("consecutive", 0, 5)], mt = sizes[vf_pick("total", 0, 5)], every = vf_pick("every", 1, 3);
  vf_assume(every > 1 ? mt == 0 || mt <= 100 : mc || mt);
  const int most = every > 1 ? 120 : 400;
  Options o = endless(most - 1);
  o.max_consec_failures = mc;
  o.max_total_failures = mt;
  int n = 0, consec = 0, total = 0, stop = 0;
  double x = 0, best = 1000;
  const auto f = [&](auto &g) -> Cost {
    const bool good = n == 0 || (every > 1 && n % every == 0);
    ++n;
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) g[0] = 1;
    if (good) { consec = 0; best -= 1; return Cost(best, 1); }
    ++consec;
    ++total;
    if (!stop) stop = mc && consec >= mc ? kMaxConsecNoDecr : mt && total >= mt ? kMaxNoDecr : 0;
    return Cost(best + 1, 1);
  };
  Opt<K, double> opt(o);
  Output out;
  if constexpr (K == GD) out = opt(x, [&](const auto &, auto &g) -> Cost { return f(g); });
  else out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost { if constexpr (!traits::is_nullptr_v<decltype(g)>) H(0, 0) = 1; return f(g); });
  vf_assert(out.stop_reason == (stop ? StopReason(stop) : kMaxIters), "stop reason of a large limit");
  vf_assert(out.num_failures == total && out.num_consec_failures == consec, "large numbers of failures");
  vf_assert(stop || n == most, "no stop before a large limit");
}
// VF: h_large cases=3 steps=30000000
extern "C" void h_large() {
  if (vf_case() == 0) large<GN>();
  else if (vf_case() == 1) large<LM>();
  else large<GD>();
  vf_reach("large");
}
// Long streaks of attempts that leave no solution, after a number of rejected steps.
template <int K> static void attempts() {
  vf_sleep_us("start", 0);
  const int limits[] = {0, 3, 5, 10, 100, 255}, streaks[] = {1, 2, 4, 5, 9, 12, 99, 200};
  const int mc = limits[vf_pick("consecutive", 0, 5)], many = streaks[vf_pick("attempts", 0, 7)], before = vf_pick("before", 0, 2);
  Options o = endless(before + 1);
  o.max_consec_failures = mc;
  o.lm.bad_factor = 1.0f;
  int n = 0, consec = 0, total = 0, stop = 0;
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost {
    const int i = n++;
    bool bad = i >= 1 && i <= before;
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      g[0] = 1;
      H(0, 0) = 1;
      if (i > before && i <= before + many) { H(0, 0) = -1; bad = true; }
    }
    if (!bad) { consec = 0; return Cost(i ? 5. : 8., 1); }
    ++consec;
    ++total;
    if (!stop && mc && consec >= mc) stop = i <= before ? kMaxConsecNoDecr : kSolverFailed;
    return Cost(9, 1);
  });
  vf_assert(out.stop_reason == (stop ? StopReason(stop) : kMaxIters), "stop reason after a streak of failed attempts");
  vf_assert(out.num_failures == total && out.num_consec_failures == consec, "numbers of failed attempts");
}
// VF: h_attempts cases=2 steps=30000000
extern "C" void h_attempts() {
  if (vf_case()) attempts<LM>();
  else attempts<GN>();
  vf_reach("attempts");
}

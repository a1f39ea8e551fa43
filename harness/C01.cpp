// BOUND: iteration limits 0..3 (thorough: 0..4) given as option or argument, with and without the final-cost check, limits of 0..2 consecutive and 0..2 total failures,
// BOUND: any time limit and stop thresholds, Gauss-Newton, Levenberg-Marquardt and gradient descent in one parameter; two consecutive answers may be any cost (also NaN or infinite), any
// BOUND: gradient, any Hessian (also negative, zero, NaN) and 0..1 residuals, the others any finite cost and gradient; systems that can never be solved with any limit of failures
// BOUND: limits of 30, 255, 256, 300 and 1000 iterations with costs that always decrease or never do; the counter at 65537 iterations; limits of 65533..131071 iterations of which 1..4 are used; limits of 0..3 iterations each needing 1..4 attempts
#include "opt.h"

template <int K> static void budget(bool thresholds) {
  vf_sleep_us("start", 0);
  Options o = endless(0);
  const int option = thresholds ? 0 : vf_pick("option", 0, 2 + vf_tier());
  const int arg = thresholds ? 2 : vf_pick("argument", -1, 3 + vf_tier());
  o.max_iters = option;
  o.check_final_cost = !thresholds && vf_bool("check_final_cost");
  const int limit = (arg < 0 ? option : arg) + (o.check_final_cost ? 2 : 1);
  bool criteria = false;
  if (thresholds) {
    o.min_error = float(vf_range("min_error", 0, 10));
    o.min_rerr_dec = float(vf_range("min_rerr_dec", 0, 2));
    o.min_step_norm2 = float(vf_range("min_step_norm2", 0, 10));
    o.max_consec_failures = vf_pick("consecutive", 1, 2);
    o.max_total_failures = vf_pick("total", 0, 2);
    criteria = true;
  }
  Trace<1, 12> t;
  const int at = thresholds ? vf_pick("at", 0, 2) : 0;
  auto answer = [&](Eval<1> &v, int n) {
    v.cost = vf_range("cost", 1, 10);
    v.g[0] = vf_range("g", -10, 10);
    v.h[0][0] = 1;
    if (!thresholds || n < at || n > at + 1) return;
    switch (vf_pick("kind", 0, 3)) {
      case 1: v.cost = vf_any("any cost"); v.n = vf_int("n", 0, 1); break;
      case 2: v.h[0][0] = vf_any("any h"); break;
      case 3: v.g[0] = vf_any("any g"); break;
    }
  };
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer), arg);
  vf_assert(out.num_iters <= limit, "iterations within the budget");
  vf_assert(out.stop_reason != kNone, "a reason is given");
  vf_assert(out.stop_reason != kMaxIters || out.num_iters == limit, "maximum reported only when the budget was used");
  vf_assert(out.num_iters >= 1 && t.n >= out.num_iters, "reported iterations were performed");
  if (!criteria) vf_assert(t.n == out.num_iters, "reported iterations were performed");
  if (!criteria) vf_assert(out.stop_reason == kMaxIters && out.num_iters == limit, "the whole budget is used when nothing else stops the run");
}
// VF: h_budget cases=3
extern "C" void h_budget() {
  if (vf_case() == 0) budget<GN>(false);
  else if (vf_case() == 1) budget<LM>(false);
  else budget<GD>(false);
  vf_reach("budget");
}
// VF: h_answers cases=3 paths=100000
extern "C" void h_answers() {
  if (vf_case() == 0) budget<GN>(true);
  else if (vf_case() == 1) budget<LM>(true);
  else budget<GD>(true);
  vf_reach("answers");
}
// A system that can never be solved.
template <int K> static void hopeless() {
  vf_sleep_us("start", 0);
  Options o = endless(vf_pick("iters", 0, 1));
  o.max_consec_failures = vf_pick("consecutive", 0, 3);
  o.max_total_failures = vf_pick("total", 0, 1);
  int n = 0;
  const double h = vf_range("h", -10, -0.1);
  double x = 1;
  Opt<K, double> opt(o);
  const Output out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost {
    if (++n > 1000) { vf_assert(false, "gives up solving"); vf_assume(false); }
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] = 1; H(0, 0) = h; }
    return Cost(1.0, 1);
  });
  vf_assert(out.stop_reason == kSolverFailed && out.num_iters == 1, "unsolvable system");
}
// VF: h_hopeless cases=2
extern "C" void h_hopeless() {
  if (vf_case() == 0) hopeless<GN>();
  else hopeless<LM>();
  vf_reach("hopeless");
}
// Long runs.
template <int K> static void longer() {
  vf_sleep_us("start", 0);
  const int sizes[] = {30, 255, 256, 300, 1000};
  const int m = sizes[vf_pick("budget", 0, K == GD ? 4 : 3)];
  const bool as_option = vf_bool("option"), check = vf_bool("check_final_cost"), better = vf_bool("better");
  Options o = endless(as_option ? m : 7);
  o.check_final_cost = check;
  int n = 0;
  double x = 0;
  const auto f = [&](auto &g) -> Cost {
    ++n;
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) g[0] = 0;
    return Cost(better ? 1.0 / n : 1.0, 1);
  };
  Opt<K, double> opt(o);
  Output out;
  if constexpr (K == GD) out = opt(x, [&](const auto &, auto &g) -> Cost { return f(g); }, as_option ? -1 : m);
  else out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost { if constexpr (!traits::is_nullptr_v<decltype(g)>) H(0, 0) = 1; return f(g); }, as_option ? -1 : m);
  const int limit = m + (check ? 2 : 1);
  vf_assert(n == limit && out.num_iters == limit, "long runs use their budget");
  vf_assert(out.stop_reason == kMaxIters, "long runs end at their budget");
  vf_assert(int(out.errs.size()) == limit && int(out.successes.size()) == limit && int(out.deltas2.size()) == limit, "long histories");
}
// VF: h_long cases=3 steps=30000000
extern "C" void h_long() {
  if (vf_case() == 0) longer<GN>();
  else if (vf_case() == 1) longer<LM>();
  else longer<GD>();
  vf_reach("long");
}
// Iterations that need several attempts use the budget as the others do.
template <int K> static void retried() {
  vf_sleep_us("start", 0);
  const int m = vf_pick("budget", 0, 3), fails = vf_pick("fails", 0, 3);
  Options o = endless(m);
  o.check_final_cost = vf_bool("check_final_cost");
  o.max_consec_failures = vf_bool("limited") ? 40 : 0;
  const bool better = vf_bool("better");
  const double c = vf_range("cost", 1, 10), slope = vf_range("g", -10, 10);
  int n = 0, failed = 0, evals = 0;
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost {
    if (++evals > 1000) { vf_assert(false, "gives up solving"); vf_assume(false); }
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      g[0] = slope;
      const bool bad = failed < fails;
      H(0, 0) = bad ? -1e9 : 1;
      if (bad) { ++failed; return Cost(c, 1); }
      failed = 0;
    }
    ++n;
    return Cost(better ? c / n : c * n, 1);
  });
  const int limit = m + (o.check_final_cost ? 2 : 1);
  vf_assert(n == limit && out.num_iters == limit, "attempts are not iterations");
  vf_assert(out.stop_reason == kMaxIters, "the budget is used however many attempts failed");
}
// VF: h_retried cases=2
extern "C" void h_retried() {
  if (vf_case() == 0) retried<GN>();
  else retried<LM>();
  vf_reach("retried");
}
// Large budgets of which little is used.
template <int K> static void unused() {
  vf_sleep_us("start", 0);
  const int sizes[] = {65533, 65534, 65535, 65536, 70000, 131071};
  const int m = sizes[vf_pick("budget", 0, 5)], stop = vf_pick("stop", 1, 4);
  const bool as_option = m < 65536 && vf_bool("option");
  Options o = endless(as_option ? m : 1);
  o.check_final_cost = vf_bool("check_final_cost");
  int n = 0, asked = 0;
  o.stop_callback = [&](double, double, double) { return ++asked == stop; };
  double x = 0;
  const double c = vf_range("cost", 1, 10);
  const auto f = [&](auto &g) -> Cost {
    ++n;
    if constexpr (!traits::is_nullptr_v<std::decay_t<decltype(g)>>) g[0] = 0;
    return Cost(c / n, 1);
  };
  Opt<K, double> opt(o);
  Output out;
  if constexpr (K == GD) out = opt(x, [&](const auto &, auto &g) -> Cost { return f(g); }, as_option ? -1 : m);
  else out = opt(x, [&](const auto &, auto &g, auto &H) -> Cost { if constexpr (!traits::is_nullptr_v<decltype(g)>) H(0, 0) = 1; return f(g); }, as_option ? -1 : m);
  vf_assert(n == stop && out.num_iters == stop, "large budgets are available");
  vf_assert(out.stop_reason == kUserStopped, "large budgets are not taken for used");
}
// VF: h_unused cases=3
extern "C" void h_unused() {
  if (vf_case() == 0) unused<GN>();
  else if (vf_case() == 1) unused<LM>();
  else unused<GD>();
  vf_reach("unused");
}
// The counter holds the largest budgets, and the iterations after 65536 are not taken for the first.
// VF: h_count
extern "C" void h_count() {
  Options o = endless(0);
  Output out;
  out.num_iters = std::numeric_limits<decltype(o.max_iters)>::max();
  const long long n = (long long)std::numeric_limits<decltype(o.max_iters)>::max() + 2;
  out.num_iters++;
  out.num_iters++;
  vf_assert(out.num_iters == n, "the counter holds the largest budget");
  const double first = vf_range("first", 1, 10), later = vf_range("later", 1, 10);
  out.final_cost = Cost(first, 1);
  Opt<GN, double> opt(o);
  double x = vf_range("x", -10, 10);
  const auto f = [&](const auto &, auto &g, auto &H) -> Cost {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] = 1; H(0, 0) = 1; }
    return Cost(later, 1);
  };
  const auto status = opt.Step(x, f, out);
  vf_assert(status.first == (later < first), "a late step is accepted when it is better");
  vf_eq(out.final_cost.cost, later < first ? later : first, "final cost after a late step");
  vf_reach("count");
}

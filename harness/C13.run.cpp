// BOUND: runs of up to 4 iterations (3 with step quality) in one parameter with any sequence of accepted, rejected and unsolvable evaluations, with and without step quality (costs chosen among six values)
// BOUND: runs with up to 10 rejected steps or unsolvable evaluations in a row
#include "opt.h"

// The damping of whole runs: the step of an iteration is -g/(h*(1+lambda)).
template <typename X> static void run(X x, int iters) {
  const bool quality = vf_bool("quality");
  if (quality) --iters;
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  o.use_step_quality_approx = quality;
  o.lm.damping_init = float(vf_range("init", 1e-3, 10));
  o.lm.good_factor = float(vf_range("good", 0.1, 1));
  o.lm.bad_factor = float(vf_range("bad", 1.5, 10));
  o.lm.damping_range = {{1e-9f, 1e9f}};
  Trace<1, 8> t;
  int failed = 0;
  auto answer = [&](Eval<1> &v, int n) {
    const double costs[] = {20, 15, 16, 8, 4, 1};
    v.cost = n ? costs[vf_pick("cost", 0, quality ? 5 : 1)] : 16;
    v.g[0] = 1;
    v.h[0][0] = 2;
    if (v.built && failed < 2 && vf_bool("unsolvable")) { ++failed; spoil<LM>(v, Unsolvable); }
  };
  set(x, 0, 0);
  Opt<LM, X> opt(o);
  const Output out = opt(x, user<LM>(t, answer));
  double lambda = o.lm.damping_init, bad = o.lm.bad_factor, best = 0;
  const double good0 = o.lm.good_factor, bad0 = bad;
  const auto scale = [&](double s) {
    lambda *= s;
    if (lambda < o.lm.damping_range[0]) lambda = o.lm.damping_range[0];
    if (lambda > o.lm.damping_range[1]) lambda = o.lm.damping_range[1];
  };
  int k = 0;
  for (int i = 0; i < t.n; ++i) {
    const Eval<1> &v = t.e[i];
    if (!v.solvable) { scale(bad); bad *= bad0; continue; }
    vf_assert(k < int(out.deltas2.size()), "step history");
    if (k >= int(out.deltas2.size())) return;
    vf_eq(out.deltas2[k] * (1 + lambda) * (1 + lambda), 0.25, "damping of an iteration");
    if (k == 0 || v.cost < best) {
      if (k) {
        const double q = (best - v.cost) / best, u = 2 * q - 1, r = 1 - u * u * u;
        double s = good0;
        if (quality && q != 0 && r > s) s = r;
        scale(bad != bad0 ? s / bad : s);
        bad = bad0;
      }
      best = v.cost;
    } else { scale(bad); bad *= bad0; }
    ++k;
  }
  vf_assert(k == int(out.deltas2.size()) && k == iters, "one step per iteration");
}
// VF: h_run cases=2 w=4
extern "C" void h_run() {
  if (vf_case()) run(VecX(1), 3);
  else run(0.0, 4 + vf_tier());
  vf_reach("run");
}
// Long streaks of rejected steps (first) and of unsolvable evaluations (later) within one run.
// VF: h_streak
extern "C" void h_streak() {
  vf_sleep_us("start", 0);
  const int rejected = vf_pick("rejected", 0, 10), unsolved = vf_pick("unsolved", 0, 10);
  Options o = endless(rejected + 2);
  o.lm.damping_init = float(vf_range("init", 1e-3, 1));
  o.lm.good_factor = 0.25f;
  o.lm.bad_factor = 2.0f;
  o.lm.damping_range = {{1e-36f, 1e36f}};
  int left = unsolved;
  Trace<1, 32> t;
  auto answer = [&](Eval<1> &v, int n) {
    v.cost = n == 0 ? 8 : n <= rejected ? 9 : 7;
    if (n > rejected + 1 && !left) v.cost = 6;
    v.g[0] = 1;
    v.h[0][0] = 2;
    if (n > rejected + 1 && v.built && left) { --left; spoil<LM>(v, Unsolvable); }
  };
  double x = 0;
  Opt<LM, double> opt(o);
  const Output out = opt(x, user<LM>(t, answer));
  double lambda = o.lm.damping_init, bad = 2;
  vf_assert(int(out.deltas2.size()) == rejected + 3, "steps of a streak");
  if (int(out.deltas2.size()) != rejected + 3) return;
  for (int k = 0; k <= rejected + 1; ++k) {
    vf_eq(out.deltas2[k] * (1 + lambda) * (1 + lambda), 0.25, "damping in a streak of rejected steps");
    if (k == 0) continue;
    if (k <= rejected) { lambda *= bad; bad *= 2; }
    else { lambda *= 0.25 / (bad != 2 ? bad : 1); bad = 2; }
  }
  for (int k = 0; k < unsolved; ++k) { lambda *= bad; bad *= 2; }
  vf_eq(out.deltas2[rejected + 2] * (1 + lambda) * (1 + lambda), 0.25, "damping after a streak of unsolvable evaluations");
  vf_reach("streak");
}

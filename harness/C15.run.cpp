// BOUND: runs of up to 3 iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent in one parameter, any nonnegative costs and 1..100000 residuals
#include "opt.h"

static double scaled(double c, int n, bool sq, bool half, bool norm) {
  double e = c;
  if (!sq) e = std::sqrt(e);
  if (half) e = e / 2;
  if (norm) e = e / n;
  return e;
}
// Every evaluation of a run, also one that only recomputes the cost, is reported with its scaled cost.
template <int K> static void run() {
  vf_sleep_us("start", 0);
  Options o = endless(2);
  const bool sq = vf_bool("sq"), half = vf_bool("half"), norm = vf_bool("norm");
  o.cost.use_squared_norm = sq;
  o.cost.downscale_by_2 = half;
  o.cost.normalize = norm;
  const double v = vf_bool("clip") ? vf_range("v", 0.1, 10) : 0;
  o.grad_clipping = float(v);
  Trace<1, 4> t;
  auto answer = [&](Eval<1> &e, int) {
    e.cost = vf_range("cost", 0, 100);
    e.n = vf_int("n", 1, 100000);
    e.g[0] = vf_range("g", -10, 10);
    e.h[0][0] = 2;
  };
  double x = 0;
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  vf_assert(t.n == 3 && int(out.errs.size()) == 3 && int(out.deltas2.size()) == 3, "evaluations");
  if (t.n != 3 || int(out.errs.size()) != 3 || int(out.deltas2.size()) != 3) return;
  Steps<K, 1> s(o);
  double best = 0;
  for (int i = 0; i < 3; ++i) {
    Eval<1> e = t.e[i];
    if (v > 0) e.g[0] = e.g[0] > v ? v : e.g[0] < -v ? -v : e.g[0];
    s.solve(e);
    const double c = scaled(e.cost, e.n, sq, half, norm);
    vf_eq(out.errs[i], c, "scaled cost of an iteration");
    vf_eq(out.deltas2[i], s.dx2, "step of the clipped gradient");
    if (!i || out.errs[i] < best) {
      best = out.errs[i];
      if (i) s.good();
    } else s.reject();
  }
  vf_eq(out.final_cost.cost, best, "scaled final cost");
}
// VF: h_scaled_run cases=3
extern "C" void h_scaled_run() {
  if (vf_case() == 0) run<GN>();
  else if (vf_case() == 1) run<LM>();
  else run<GD>();
  vf_reach("scaled_run");
}

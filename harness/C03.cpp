// BOUND: runs of up to 6 (thorough: 7) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent, 1..2 parameters (up to 2 iterations: 3..6, also as matrices, arrays, lists of vectors and with a sparse Hessian), in which every evaluation is
// BOUND: accepted, rejected, NaN/infinite, without residuals or unsolvable; limits of 0..3 consecutive and 0 or 2 total failures; stop requested at any iteration
// BOUND: runs of 25 iterations in one parameter with fixed costs that reject every 2nd, 3rd, 7th or no evaluation or 2, 3, 6 or 20 in a row
#include "opt.h"

// acc: the starting point.
template <int K, int N, int M, typename X> static void follow(const Options &o, const Trace<N, M> &t, const Output &out, double *acc, const X &x) {
  Steps<K, N> s(o);
  double best = 0;
  bool any = false, after_accepted = false, step = false;
  for (int i = 0; i < t.n; ++i) {
    const Eval<N> &v = t.e[i];
    if (after_accepted) vf_assert(near<N>(v.x, acc, s.dx), "an accepted iteration moves the parameters by its step");
    else if (step) vf_assert(near<N>(v.x, acc) | near<N>(v.x, acc, s.dx), "evaluated at the accepted point or one step from it");
    else vf_assert(near<N>(v.x, acc), "first evaluated at the starting point");
    after_accepted = false;
    if (!v.usable) continue;
    if (!v.solvable) { s.reject(); continue; }
    s.solve(v);
    step = true;
    if (!any || v.cost < best) {
      if (any) s.good();
      best = v.cost;
      for (int j = 0; j < N; ++j) acc[j] = v.x[j];
      any = after_accepted = true;
    } else s.reject();
  }
  if (any) vf_eq(out.final_cost.cost, best, "reported cost");
  double y[N];
  for (int i = 0; i < N; ++i) y[i] = par(x, i);
  if (out.stop_reason < StopReason::kNone || out.stop_reason == StopReason::kMaxNoDecr || out.stop_reason == StopReason::kMaxConsecNoDecr || !step)
    vf_assert(near<N>(y, acc), "after a failure the accepted point is returned");
  else
    vf_assert(near<N>(y, acc) | near<N>(y, acc, s.dx), "the accepted point or one step from it is returned");
}
template <int K, int N, typename X, typename H = void> static void moves(X x, int iters, bool spoiled) {
  vf_sleep_us("start", 0);
  const bool check = !spoiled && vf_bool("check_final_cost");
  Options o = endless(iters - (check ? 2 : 1));
  o.check_final_cost = check;
  o.max_consec_failures = vf_pick("consecutive", spoiled ? 1 : 0, 3);
  o.max_total_failures = vf_bool("total") ? 2 : 0;
  if (!spoiled) o.stop_callback = [](double, double, double) { return vf_bool("stop"); };
  Trace<N, 20> t;
  auto answer = [&](Eval<N> &v, int) {
    v.cost = vf_range("cost", 1, 10);
    system(v, true);
    if (spoiled) spoil<K>(v, vf_pick("kind", 0, K == GD ? 3 : 4));
  };
  double acc[N];
  for (int i = 0; i < N; ++i) set(x, i, acc[i] = vf_range("x", -10, 10));
  Opt<K, X, H> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  follow<K>(o, t, out, acc, x);
}
template <int K> static void shapes() {
  const int th = vf_tier();
  switch (vf_case()) {
    case 0: moves<K, 1>(0.0, 6 + th, false); break;
    case 1: moves<K, 1>(0.0, 4 + th, true); break;
    case 2: moves<K, 2>(Vec2(0, 0), 3, true); break;
    case 3: moves<K, 1>(VecX(1), 4, false); break;
    case 4: moves<K, 4>(Matrix<double, 2, 2>(), 2, true); break;
    case 5: moves<K, 5>(VecX(5), 2, true); break;
    case 6: moves<K, 6>(Matrix<double, 3, 2>(), 2, false); break;
    case 7: moves<K, 3>(std::array<double, 3>(), 2, true); break;
    case 8: moves<K, 4>(std::vector<Vec2>(2), 2, false); break;
    default: if constexpr (K != GD) moves<K, 3, VecX, SparseMatrix<double>>(VecX(3), 2, false); break;
  }
}
// VF: h_moves_gn cases=10
extern "C" void h_moves_gn() {
  shapes<GN>();
  vf_reach("moves_gn");
}
// VF: h_moves_lm cases=10
extern "C" void h_moves_lm() {
  shapes<LM>();
  vf_reach("moves_lm");
}
// VF: h_moves_gd cases=9
extern "C" void h_moves_gd() {
  shapes<GD>();
  vf_reach("moves_gd");
}
// Long runs.
template <int K> static void longer() {
  static constexpr int patterns[] = {2, 3, 7, 100, -2, -3, -6, -20};
  vf_sleep_us("start", 0);
  const int p = patterns[vf_case()];
  Options o = endless(24);
  Trace<1, 30> t;
  auto answer = [&](Eval<1> &v, int n) {
    v.cost = patterned(n, p);
    v.g[0] = n % 5 == 0 ? vf_range("g", -10, 10) : n % 4 - 1.5;
    v.h[0][0] = 2;
  };
  double x, acc[1];
  x = acc[0] = vf_range("x", -10, 10);
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  vf_assert(t.n == 25, "number of evaluations");
  follow<K>(o, t, out, acc, x);
}
// VF: h_long_gn cases=8
extern "C" void h_long_gn() {
  longer<GN>();
  vf_reach("long_gn");
}
// VF: h_long_lm cases=8
extern "C" void h_long_lm() {
  longer<LM>();
  vf_reach("long_lm");
}
// VF: h_long_gd cases=8
extern "C" void h_long_gd() {
  longer<GD>();
  vf_reach("long_gd");
}

// BOUND: runs of up to 4 (thorough: 5) iterations of Gauss-Newton, Levenberg-Marquardt and gradient descent in 1..2 parameters (one iteration: 5); every evaluation takes any time up to 1 s,
// BOUND: any time limit of at least 0.1 ms more than 0.01 ms away from the time taken or 0, any callback answers
// BOUND: runs of 20 iterations with fixed costs: any times and limit, stop requested at any iteration
#include "opt.h"

template <int K> static void timed(int iters, int pattern = 0) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  const double limit = o.max_duration_ms = vf_bool("limited") ? vf_range("limit", 0.1, 5000) : 0;
  Trace<1, 24> t;
  double ms[24], x = 0, sum = 0, total = 0;
  auto answer = [&](Eval<1> &v, int n) {
    v.cost = pattern ? patterned(n, pattern) : vf_bool("worse") ? 20 : 10 - n;
    v.g[0] = 1;
    v.h[0][0] = 2;
    ms[n] = vf_sleep_us("took", 1000000);
    total += ms[n];
    vf_assume(total < limit - 0.01 || total > limit + 0.01);  // durations are stored in single precision
  };
  Opt<K, double> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  for (int i = 0; i < t.n; ++i) {
    sum += ms[i];
    vf_assert(!(limit > 0 && sum > limit) || i == t.n - 1, "stops at the end of the iteration that exceeds the limit");
  }
  const bool out_of_time = limit > 0 && sum > limit;
  vf_assert((out.stop_reason == kTimedOut) == out_of_time, "timed out exactly when the limit is exceeded");
  vf_assert(out_of_time || (t.n == iters && out.stop_reason == kMaxIters), "never stops before the limit");
  vf_eq(out.duration_ms, sum, "reported duration");
  vf_assert(out.num_iters == t.n, "number of iterations");
}
// VF: h_long_timed cases=6
extern "C" void h_long_timed() {
  const int p = vf_case() % 2 ? 3 : -8;
  if (vf_case() / 2 == 0) timed<GN>(20, p);
  else if (vf_case() / 2 == 1) timed<LM>(20, p);
  else timed<GD>(20, p);
  vf_reach("long_timed");
}
// VF: h_timed cases=3
extern "C" void h_timed() {
  const int n = 4 + vf_tier();
  if (vf_case() == 0) timed<GN>(n);
  else if (vf_case() == 1) timed<LM>(n);
  else timed<GD>(n);
  vf_reach("timed");
}
// Which callbacks are set: bit 0: norms, bit 1: vectors.
template <int K, int N, typename X> static void callbacks(X x, int iters, int pattern = 0) {
  vf_sleep_us("start", 0);
  Options o = endless(iters - 1);
  const int which = vf_pick("which", 1, 3);
  o.max_consec_failures = pattern ? 0 : vf_pick("consecutive", 0, 2);
  const int at = pattern ? vf_pick("at", 0, iters) : 0;
  struct Call { double e, d2, g2, d[N], g[N]; bool stop; } c1[24], c2[24];
  int n1 = 0, n2 = 0;
  if (which & 1) o.stop_callback = [&](double e, double d2, double g2) { Call &c = c1[n1++]; c.e = e; c.d2 = d2; c.g2 = g2; return c.stop = pattern ? n1 > at : vf_bool("stop"); };
  if (which & 2)
    o.stop_callback2 = [&](float e, const VecXf &d, const VecXf &g) {
      Call &c = c2[n2++];
      vf_assert(d.size() == N && g.size() == N, "sizes of the callback's vectors");
      c.e = e;
      for (int i = 0; i < N; ++i) { c.d[i] = d[i]; c.g[i] = g[i]; }
      return c.stop = pattern ? n2 > at : vf_bool("stop2");
    };
  Trace<N, 24> t;
  auto answer = [&](Eval<N> &v, int n) {
    if (pattern) {
      v.cost = patterned(n, pattern);
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { v.g[i] = n == 7 ? vf_range("g", -10, 10) : n % 4 - 1.5 * i; v.h[i][j] = i == j ? 2 : 0; }
      return;
    }
    v.cost = vf_range("cost", 1, 10);
    system(v, true);
  };
  for (int i = 0; i < N; ++i) set(x, i, 0);
  Opt<K, X> opt(o);
  const Output out = opt(x, user<K>(t, answer));
  Steps<K, N> s(o);
  double best = 0;
  int k1 = 0, k2 = 0, consec = 0;
  for (int i = 0; i < t.n; ++i) {
    const Eval<N> &v = t.e[i];
    s.solve(v);
    double g2 = 0;
    for (int k = 0; k < N; ++k) g2 += s.g[k] * s.g[k];
    const bool good = !i || v.cost < best;
    if (!good) ++consec;
    else consec = 0;
    const bool last = i == t.n - 1;
    if (o.max_consec_failures > 0 && consec >= o.max_consec_failures) {
      vf_assert(last && out.stop_reason == kMaxConsecNoDecr, "ended by a limit");
      break;
    }
    bool stop = false;
    if (which & 1) {
      vf_assert(k1 < n1, "callback called at every evaluated step");
      if (k1 >= n1) return;
      const Call &c = c1[k1++];
      vf_eq(c.e, v.cost, "cost given to the callback");
      vf_eq(c.d2, s.dx2, "squared step given to the callback");
      vf_eq(c.g2, g2, "squared gradient given to the callback");
      stop = c.stop;
    }
    if ((which & 2) && !stop) {
      vf_assert(k2 < n2, "vector callback called at every evaluated step");
      if (k2 >= n2) return;
      const Call &c = c2[k2++];
      vf_eq(c.e, v.cost, "cost given to the vector callback");
      for (int k = 0; k < N; ++k) { vf_eq(c.d[k], s.dx[k], "step given to the vector callback"); vf_eq(c.g[k], s.g[k], "gradient given to the vector callback"); }
      stop = c.stop;
    }
    vf_assert(!stop || last, "stops when the callback says so");
    if (last) {
      if (stop) vf_assert(out.stop_reason == kUserStopped, "reported as stopped by the user");
      else vf_assert(out.stop_reason == kMaxIters && t.n == iters, "goes on until the callback says so");
    }
    if (good) {
      if (i) s.good();
      best = v.cost;
    } else s.reject();
  }
  vf_assert(k1 == n1 && k2 == n2, "no further calls of the callbacks");
}
template <int K> static void shapes() {
  switch (vf_case()) {
    case 0: callbacks<K, 1>(0.0, 3 + vf_tier()); break;
    case 1: callbacks<K, 2>(Vec2(0, 0), 3); break;
    case 2: callbacks<K, 2>(VecX(2), 2); break;
    case 3: callbacks<K, 2>(Vec2(0, 0), 12, 3); break;
    case 4: callbacks<K, 1>(0.0, 20, -7); break;
    default: callbacks<K, 5>(VecX(5), 1); break;
  }
}
// VF: h_callbacks_gn cases=6
extern "C" void h_callbacks_gn() {
  shapes<GN>();
  vf_reach("callbacks_gn");
}
// VF: h_callbacks_lm cases=6
extern "C" void h_callbacks_lm() {
  shapes<LM>();
  vf_reach("callbacks_lm");
}
// VF: h_callbacks_gd cases=6
extern "C" void h_callbacks_gd() {
  shapes<GD>();
  vf_reach("callbacks_gd");
}

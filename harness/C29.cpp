// BOUND: a first run of up to 4 iterations and, after a reset, a second run of up to 3 (Gauss-Newton, Levenberg-Marquardt, gradient descent), 1..2 parameters (4..5 in shorter runs),
// BOUND: statically and dynamically sized and sparse; every evaluation is accepted, rejected, NaN/infinite, without residuals or unsolvable
// BOUND: first runs of 16 and second runs of 12 iterations with fixed answers but for one evaluation
#include "same.h"
template <typename X> static X sized(int n) {
  X x{};
  if constexpr (traits::params_trait<X>::Dims == Dynamic) x.resize(n);
  return x;
}
// K: solver, N1, N2: number of parameters of the two runs.
template <int K, int N1, int N2, typename X, typename H_t = void> static void reuse(int iters1, int iters2, bool spoiled1, bool spoiled2, int pattern = 0) {
  constexpr int kinds = K == GD || !std::is_void_v<H_t> ? 3 : 4;
  vf_sleep_us("start", 0);
  Options o = endless(-1);
  o.max_consec_failures = spoiled1 || spoiled2 ? 2 : 0;
  if (vf_bool("other options")) { o.lm.damping_init = 0.5; o.lm.bad_factor = 5; o.lm.good_factor = 0.25; o.gd.lr = 0.5; }
  Opt<K, X, H_t> opt(o);
  {
    Trace<N1, 24> t;
    auto answer = [&](Eval<N1> &v, int n) {
      if (pattern) {
        long_answer(v, n, pattern, 1);
        if (spoiled1 && n == iters1 - 1) spoil<K>(v, vf_pick("kind", 0, kinds));
        return;
      }
      v.cost = vf_range("cost", 1, 10);
      system(v, true);
      if (spoiled1) spoil<K>(v, vf_pick("kind", 0, kinds));
    };
    X x = sized<X>(N1);
    for (int i = 0; i < N1; ++i) set(x, i, vf_range("x", -10, 10));
    opt(x, user<K>(t, answer), iters1 - 1);
  }
  opt.reset();
  Trace<N2, 24> t, u;
  const int at = pattern ? vf_pick("at", 0, iters2 - 1) : 0;
  auto answer = [&](Eval<N2> &v, int n) {
    if (pattern) {
      long_answer(v, n, -pattern, at);
      if (spoiled2 && n == at) spoil<K>(v, vf_pick("kind", 0, kinds));
      return;
    }
    v.cost = vf_range("cost", 1, 10);
    system(v, true);
    if (spoiled2) spoil<K>(v, vf_pick("kind", 0, kinds));
  };
  X x = sized<X>(N2);
  for (int i = 0; i < N2; ++i) set(x, i, vf_range("x", -10, 10));
  X y = x;
  const Output a = opt(x, user<K>(t, answer), iters2 - 1);
  Opt<K, X, H_t> fresh(o);
  auto again = like(t);
  const Output b = fresh(y, user<K>(u, again), iters2 - 1);
  same_run(t, u, a, b, x, y);
}
template <int K> static void shapes() {
  const int th = vf_tier();
  switch (vf_case()) {
    case 0: reuse<K, 1, 1, double>(4, 3, false, false); break;
    case 1: reuse<K, 1, 1, double>(2, 2 + th, true, true); break;
    case 2: reuse<K, 2, 2, Vec2>(2, 2, false, false); break;
    case 3: reuse<K, 2, 1, VecX>(3, 1, false, false); break;
    case 4: reuse<K, 1, 2, VecX>(2, 1 + th, true, false); break;
    case 5: reuse<K, 5, 4, VecX>(2, 1, false, false); break;
    case 6: reuse<K, 3, 5, VecX>(1, 2, false, false); break;
    case 7: reuse<K, 4, 4, Mat2>(2, 1, true, false); break;
    case 8: reuse<K, 1, 1, double>(16, 12, true, true, 3); break;
    case 9: reuse<K, 2, 3, VecX>(12, 10, true, false, -6); break;
    case 10: if constexpr (K != GD) reuse<K, 1, 2, VecX, SparseMat>(2, 2, false, false); break;
    case 11: if constexpr (K != GD) reuse<K, 4, 3, VecX, SparseMat>(1, 1, false, false); break;
    default: if constexpr (K != GD) reuse<K, 2, 1, VecX, SparseMat>(2, 2, true, false); break;
  }
}
// VF: h_gn cases=13
extern "C" void h_gn() {
  shapes<GN>();
  vf_reach("end");
}
// VF: h_lm cases=13
extern "C" void h_lm() {
  shapes<LM>();
  vf_reach("end");
}
// VF: h_gd cases=10
extern "C" void h_gd() {
  shapes<GD>();
  vf_reach("end");
}

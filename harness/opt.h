// Whole runs of the optimisers on answers of the user's function that are chosen call by call.
#pragma once
#include "pars.h"
enum Kind { GN, LM, GD };

template <int N> struct Eval {
  double x[N], cost = 1, g[N], h[N][N];
  int n = 1;           // number of residuals
  bool built = false;  // a gradient was asked for
  bool usable = true, solvable = true;
};
// N: number of parameters, M: largest number of evaluations.
template <int N, int M> struct Trace {
  Eval<N> e[M];
  int n = 0;
  template <typename X, typename F> Eval<N> &next(const X &x, F &answer, bool built) {
    if (n >= M) { vf_assert(false, "number of evaluations"); vf_assume(false); }
    Eval<N> &v = e[n];
    for (int i = 0; i < N; ++i) v.x[i] = par(x, i);
    v.built = built;
    answer(v, n);
    ++n;
    return v;
  }
};
// A gradient and a definite diagonal Hessian (a fixed one in several dimensions if asked for, and from 4 on a gradient that is fixed between its ends).
template <int N> static void system(Eval<N> &v, bool fixed = false) {
  for (int i = 0; i < N; ++i) {
    v.g[i] = fixed && N > 3 && i && i < N - 1 ? i - 2.5 : vf_range("g", -10, 10);
    for (int j = 0; j < N; ++j) v.h[i][j] = i != j ? 0 : fixed && N > 1 ? N + 2 - i : vf_range("h", 0.1, 10);
  }
}
template <int K, typename X, typename H = void> struct opt_of {
  static constexpr int D = traits::params_trait<X>::Dims;
  using H_t = std::conditional_t<std::is_void_v<H>, Matrix<double, D, D>, H>;
  using type = std::conditional_t<K == GN, gn::Optimizer<H_t>, std::conditional_t<K == LM, lm::Optimizer<H_t>, gd::Optimizer<Vector<double, D>>>>;
};
template <int K, typename X, typename H = void> using Opt = typename opt_of<K, X, H>::type;

// The user's function.
template <int K, int N, int M, typename F> static auto user(Trace<N, M> &t, F &answer) {
  const auto fill = [&](const auto &x, auto &g, auto &H) -> Cost {
    const Eval<N> *v = &t.next(x, answer, !traits::is_nullptr_v<decltype(g)>);
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      for (int i = 0; i < N; ++i) g[i] += v->g[i];
      if constexpr (!traits::is_nullptr_v<decltype(H)>)
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) H.coeffRef(i, j) += v->h[i][j];
    }
    return Cost(v->cost, v->n);
  };
  if constexpr (K == GD) return [fill](const auto &x, auto &g) -> Cost { std::nullptr_t nul; return fill(x, g, nul); };
  else return [fill](const auto &x, auto &g, auto &H) -> Cost { return fill(x, g, H); };
}
// No stopping criterion but the iteration limit.
static Options endless(int max_iters) {
  Options o = quiet();
  o.max_iters = max_iters;
  o.min_error = 0;
  o.min_rerr_dec = 0;
  o.min_step_norm2 = 0;
  o.min_grad_norm2 = 0;
  o.max_total_failures = 0;
  o.max_consec_failures = 0;
  o.max_duration_ms = 0;
  return o;
}
// The steps the solvers compute on diagonal systems.
template <int K, int N> struct Steps {
  double lambda, bad, good0, bad0, lo, hi, lr, g[N], h[N], dx[N], dx2;
  Steps(const Options &o) : lambda(o.lm.damping_init), bad(o.lm.bad_factor), good0(o.lm.good_factor), bad0(bad), lo(o.lm.damping_range[0]), hi(o.lm.damping_range[1]), lr(o.gd.lr) {}
  void solve(const Eval<N> &v) {
    dx2 = 0;
    for (int i = 0; i < N; ++i) {
      if (v.built) { g[i] = v.g[i]; h[i] = v.h[i][i]; }
      dx[i] = K == GD ? -lr * g[i] : K == GN ? -g[i] / h[i] : -g[i] / (h[i] * (1 + lambda));
      dx2 += dx[i] * dx[i];
    }
  }
  void scale(double s) {
    if (lambda == 0) return;
    lambda *= s;
    if (lambda < lo) lambda = lo;
    if (lambda > hi) lambda = hi;
  }
  void good() {
    scale(bad != bad0 ? good0 / bad : good0);
    bad = bad0;
  }
  void reject() {
    scale(bad);
    bad *= bad0;
  }
};
template <int N> static bool near(const double *x, const double *a, const double *dx = nullptr) {
  bool ok = true;
  for (int i = 0; i < N; ++i) {
    const double d = x[i] - a[i] - (dx ? dx[i] : 0);
    ok = ok & (d < 1e-9) & (d > -1e-9);
  }
  return ok;
}
// Costs of long runs: every p-th evaluation is rejected (p > 0), or all from the 4th to the (3-p)-th.
static double patterned(int n, int p) {
  const bool worse = p > 0 ? n % p == p - 1 : n >= 3 && n < 3 - p;
  return worse ? 200 + n : 100 - n;
}
// The answers of long runs: fixed but for a gradient entry of one evaluation.
template <int N> static void long_answer(Eval<N> &v, int n, int pattern, int at) {
  v.cost = patterned(n, pattern);
  v.n = 1 + n;
  for (int i = 0; i < N; ++i) {
    v.g[i] = n == at && i == 0 ? vf_range("g", -10, 10) : n % 4 - 1.5 * (i + 1);
    for (int j = 0; j < N; ++j) v.h[i][j] = i == j ? 2 + n % 3 + i : 0.25 * (n % 2);
  }
}
// A user function's answer that cannot be used.
enum { Usable, NanCost, InfCost, NoResiduals, Unsolvable };
template <int K, int N> static void spoil(Eval<N> &v, int kind) {
  const double inf = std::numeric_limits<double>::infinity();
  switch (kind) {
    case NanCost: v.cost = std::numeric_limits<double>::quiet_NaN(); v.usable = false; break;
    case InfCost: v.cost = vf_bool("negative") ? -inf : inf; v.usable = false; break;
    case NoResiduals: v.n = 0; v.usable = false; break;
    case Unsolvable: if (K != GD && v.built) { for (int i = 0; i < N; ++i) v.h[i][i] = -v.h[i][i]; v.solvable = false; } break;
  }
}

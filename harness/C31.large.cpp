// BOUND: 4..6 parameters with one residual more, fixed matrix, any solution and two free coordinates of the start; supplied, automatic and numerical derivatives; they stop on the norm of the step
#include "pars.h"
enum { Supplied, Auto, Num };
// Residuals w_i*(x_i - s_i) + r_i and c*(x - s) + r_N, with r orthogonal to the columns.
template <int N> struct Large {
  double A[N + 1][N] = {}, b[N + 1], s[N], x0[N], k;
  Large() {
    k = vf_range("k", -10, 10);
    double r[N + 1], d2 = 0;
    for (int i = 0; i < N; ++i) {
      A[i][i] = i + 2;
      A[N][i] = 1 - 0.5 * (i % 3) * (i + 1);
      r[i] = -k * A[N][i] / A[i][i];
      s[i] = vf_range("s", -10, 10);
      const double d = i == 0 || i == N - 1 ? vf_range("d", -10, 10) : 0.5 * i;
      x0[i] = s[i] + d;
      d2 += d * d;
    }
    r[N] = k;
    for (int i = 0; i <= N; ++i) {
      b[i] = -r[i];
      for (int j = 0; j < N; ++j) b[i] += A[i][j] * s[j];
    }
  }
  double cost() const {
    double r = k * k;
    for (int i = 0; i < N; ++i) r += k * k * A[N][i] * A[N][i] / (A[i][i] * A[i][i]);
    return r;
  }
};
template <int D, int N, typename X, typename H_t = void> static void linear(X x) {
  vf_sleep_us("start", 0);
  const Large<N> p;
  for (int i = 0; i < N; ++i) set(x, i, p.x0[i]);
  Options o = quiet(Options::Solver::GaussNewton);
  o.max_duration_ms = 0;
  o.min_error = o.min_rerr_dec = o.min_grad_norm2 = 0;
  Output out;
  const auto f = [&](const auto &z) {
    using Z = std::decay_t<decltype(par(z, 0))>;
    Vector<Z, N + 1> r;
    for (int i = 0; i <= N; ++i) {
      r[i] = Z(-p.b[i]);
      for (int j = 0; j < N; ++j) if (p.A[i][j] != 0) r[i] += p.A[i][j] * par(z, j);
    }
    return r;
  };
  if constexpr (D == Supplied) {
    const auto acc = [&](const auto &z, auto &g, auto &H) -> Cost {
      const Vector<double, N + 1> r = f(z);
      if constexpr (!traits::is_nullptr_v<decltype(g)>)
        for (int j = 0; j < N; ++j) {
          for (int i = 0; i <= N; ++i) g[j] += p.A[i][j] * r[i];
          for (int k = 0; k < N; ++k) {
            double h = 0;
            for (int i = 0; i <= N; ++i) h += p.A[i][j] * p.A[i][k];
            if (h != 0) H.coeffRef(j, k) = h;
          }
        }
      return Cost(r);
    };
    if constexpr (std::is_void_v<H_t>) out = Optimize(x, acc, o);
    else { gn::Optimizer<H_t> opt(o); out = opt(x, acc); }
  } else if constexpr (D == Num) out = Optimize(x, [&](const X &z) { return f(z); }, o);
  else out = Optimize(x, f, o);
  for (int j = 0; j < N; ++j) vf_eq(par(x, j), p.s[j], "one iteration reaches the solution of many parameters");
  vf_assert(out.Converged(), "converged with many parameters");
  const double c = out.final_cost.cost;
  vf_eq(D == Num ? c * c : c, p.cost(), "final cost with many parameters");
  vf_assert(out.num_iters <= 3, "number of iterations with many parameters");
}
// VF: h_large cases=7
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: linear<Supplied, 4>(Vec4(0, 0, 0, 0)); break;
    case 1: linear<Supplied, 5>(VecX(5)); break;
    case 2: linear<Supplied, 5, VecX, SparseMat>(VecX(5)); break;
    case 3: linear<Auto, 4>(Vec4(0, 0, 0, 0)); break;
    case 4: linear<Auto, 4>(VecX(4)); break;
    case 5: linear<Num, 4>(std::array<double, 4>()); break;
    default: linear<Supplied, 6>(Vector<double, 6>()); break;
  }
  vf_reach("end");
}

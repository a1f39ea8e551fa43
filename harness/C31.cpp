// BOUND: 2..3 residuals, 1..2 parameters, scalar, static, dynamic, user-defined and sparse; AᵀA is at least 0.01 away from singular, entries of A in [-4,4], b and x in [-10,10];
// BOUND: the first step and cost are zero or not tiny (squared norm above 1e-3); matrices with two columns have a fixed last row, sparse ones also fixed off-diagonal entries, 3x2 ones one free entry; two parameters stop on the norm of the step; derivatives exact, automatic or numerical
#include "pars.h"
enum { Supplied, Auto, Num };
// Every problem and start is given by its solution s, residuals r orthogonal to the columns of A, and a start s + d.
template <int R, int N, int Fixed> struct Problem {
  double A[R][N], b[R], s[N], d[N];
  Problem() {
    for (int i = 0; i < R; ++i) for (int j = 0; j < N; ++j) A[i][j] = Fixed && i == R - 1 ? 1 + j : Fixed > 2 && i == 1 ? 3 - 2 * (j == 0) : Fixed > 1 && i != j ? 1 : vf_range("a", -4, 4);
    const bool start_at_solution = vf_bool("start at the solution");
    for (int j = 0; j < N; ++j) { s[j] = vf_range("s", -10, 10); d[j] = start_at_solution ? 0 : vf_range("d", -10, 10); }
    double r[R] = {};
    if constexpr (R > N) {
      const double k = vf_range("k", -10, 10);
      if constexpr (N == 2) {  // R == 3
        r[0] = k * (A[1][0] * A[2][1] - A[2][0] * A[1][1]);
        r[1] = k * (A[2][0] * A[0][1] - A[0][0] * A[2][1]);
        r[2] = k * (A[0][0] * A[1][1] - A[1][0] * A[0][1]);
      } else if constexpr (R == 2) {
        r[0] = -k * A[1][0];
        r[1] = k * A[0][0];
      } else {  // R == 3: a vector in the plane orthogonal to A
        const double l = vf_range("l", -10, 10);
        r[0] = -k * A[1][0];
        r[1] = k * A[0][0] - l * A[2][0];
        r[2] = l * A[1][0];
      }
    }
    for (int i = 0; i < R; ++i) {
      b[i] = -r[i];
      for (int j = 0; j < N; ++j) b[i] += A[i][j] * s[j];
    }
    if constexpr (N == 1) vf_assume(gram(0, 0) > 0.01);
    else vf_assume(gram(0, 0) * gram(1, 1) - gram(0, 1) * gram(0, 1) > 0.01);
    double d2 = 0;
    for (int j = 0; j < N; ++j) d2 += d[j] * d[j];
    if (!start_at_solution) vf_assume(d2 > 1e-3);
  }
  double res(int i, const double *x) const {
    double r = -b[i];
    for (int j = 0; j < N; ++j) r += A[i][j] * x[j];
    return r;
  }
  double grad(int j, const double *x) const {
    double r = 0;
    for (int i = 0; i < R; ++i) r += A[i][j] * res(i, x);
    return r;
  }
  double gram(int j, int k) const {
    double r = 0;
    for (int i = 0; i < R; ++i) r += A[i][j] * A[i][k];
    return r;
  }
  double cost(const double *x) const {
    double r = 0;
    for (int i = 0; i < R; ++i) r += res(i, x) * res(i, x);
    return r;
  }
};
template <int D, int R, int N, int Fixed, typename X, typename H_t = void> static void linear(X x) {
  vf_sleep_us("start", 0);
  const Problem<R, N, Fixed> p;
  double x0[N], y[N];
  for (int i = 0; i < N; ++i) set(x, i, x0[i] = p.s[i] + p.d[i]);
  const double *const s = p.s;
  Options o = quiet(Options::Solver::GaussNewton);
  o.max_duration_ms = 0;
  if (N > 1) o.min_error = o.min_rerr_dec = o.min_grad_norm2 = 0;  // the step norm decides
  Output out;
  if constexpr (D == Supplied) {
    const auto f = [&](const auto &z, auto &g, auto &H) -> Cost {
      double v[N];
      for (int i = 0; i < N; ++i) v[i] = par(z, i);
      if constexpr (!traits::is_nullptr_v<decltype(g)>) for (int j = 0; j < N; ++j) g[j] = p.grad(j, v);
      if constexpr (!traits::is_nullptr_v<decltype(g)> && !traits::is_nullptr_v<decltype(H)>)
        for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) H.coeffRef(j, k) = p.gram(j, k);
      return Cost(p.cost(v), R);
    };
    if constexpr (std::is_void_v<H_t>) out = Optimize(x, f, o);
    else { gn::Optimizer<H_t> opt(o); out = opt(x, f); }
  } else {
    const auto f = [&](const auto &z) {
      using Z = std::decay_t<decltype(par(z, 0))>;
      Vector<Z, R> r;
      for (int i = 0; i < R; ++i) {
        r[i] = Z(-p.b[i]);
        for (int j = 0; j < N; ++j) r[i] += p.A[i][j] * par(z, j);
      }
      return r;
    };
    if constexpr (D == Num) out = Optimize(x, [&](const X &z) { return f(z); }, o);
    else out = Optimize(x, f, o);
  }
  for (int i = 0; i < N; ++i) y[i] = par(x, i);
  for (int j = 0; j < N; ++j) vf_eq(y[j], s[j], "one iteration reaches the solution");
  vf_assert(out.Converged(), "converged");
  const double c = out.final_cost.cost;
  vf_eq(D == Num ? c * c : c, p.cost(s), "final cost");
  vf_assert(c >= 0, "final cost is not negative");
  vf_assert(out.num_iters <= 3, "number of iterations");
}
// VF: h_supplied cases=6
extern "C" void h_supplied() {
  switch (vf_case()) {
    case 0: linear<Supplied, 2, 1, 0>(0.0); break;
    case 1: linear<Supplied, 3, 1, 1>(VecX(1)); break;
    case 2: linear<Supplied, 2, 2, 1>(Vec2(0, 0)); break;
    case 3: linear<Supplied, 3, 2, 3>(VecX(2)); break;
    case 4: linear<Supplied, 3, 2, 3>(Pose<double>()); break;
    default: linear<Supplied, 2, 2, 2, VecX, SparseMat>(VecX(2)); break;
  }
  vf_reach("end");
}
// VF: h_auto cases=4
extern "C" void h_auto() {
  switch (vf_case()) {
    case 0: linear<Auto, 2, 1, 0>(0.0); break;
    case 1: linear<Auto, 2, 1, 0>(VecX(1)); break;
    case 2: linear<Auto, 2, 2, 1>(Vec2(0, 0)); break;
    default: linear<Auto, 2, 2, 1>(Pose<double>()); break;
  }
  vf_reach("end");
}
// VF: h_num cases=2
extern "C" void h_num() {
  switch (vf_case()) {
    case 0: linear<Num, 2, 1, 0>(0.0); break;
    default: linear<Num, 2, 2, 2>(Pose<double>()); break;
  }
  vf_reach("end");
}

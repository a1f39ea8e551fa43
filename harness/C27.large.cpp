// BOUND: runs of 2 iterations in 4..6 parameters, Hessians L*D*L^T with a fixed L and any one entry of D; dense static, dense dynamic and sparse
#include "opt.h"
#include "large.h"

template <int K, int N, typename X, typename H_t = void> static void run(X x, int at, bool upper) {
  using M = std::conditional_t<std::is_same_v<H_t, SparseMat>, SparseMat, MatX>;
  vf_sleep_us("start", 0);
  Options o = endless(1);
  o.hessian.H_is_full = !upper;
  Trace<N, 4> t;
  auto answer = [&](Eval<N> &v, int i) {
    v.cost = i ? vf_range("cost", 1, 10) : 5;
    v.n = 2 * N;
    for (int k = 0; k < N; ++k) v.g[k] = k;
    large(v.h, at, i ? vf_range("d", 0.5, 8) : 2);
  };
  for (int i = 0; i < N; ++i) set(x, i, 0);
  Opt<K, X, H_t> opt(o);
  auto f = user<K>(t, answer);
  const Output out = opt(x, [&](const auto &y, auto &g, auto &H) -> Cost {
    const Cost c = f(y, g, H);
    if constexpr (!traits::is_nullptr_v<decltype(H)>)
      if (upper) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) H.coeffRef(i, j) = 0;
    return c;
  });
  vf_assert(t.n == 2 && out.has_final_hessian() && std::holds_alternative<M>(out.final_hessian), "a large Hessian is reported");
  if (t.n != 2 || !out.has_final_hessian()) return;
  const Eval<N> &last = t.e[t.e[1].built];
  const M &H = std::get<M>(out.final_hessian);
  vf_assert(H.rows() == N && H.cols() == N, "size of a large Hessian");
  for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) {
    vf_eq(H.coeff(i, j), last.h[i][j], "large Hessian of the last built evaluation");
    if (!upper) vf_eq(H.coeff(j, i), last.h[i][j], "large Hessian of the last built evaluation");
  }
  const auto C = out.template Covariance<M>();
  vf_assert(C.has_value(), "covariance of a large definite Hessian");
  if (!C) return;
  vf_assert(C->rows() == N && C->cols() == N, "size of a large covariance");
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    double r = 0;
    for (int k = 0; k < N; ++k) r += last.h[i][k] * C->coeff(k, j);
    vf_eq(r, i == j, "covariance is the inverse of a large Hessian");
  }
}
// VF: h_large cases=6
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: run<GN, 4>(Vector<double, 4>(), 1, false); break;
    case 1: run<LM, 4>(Vector<double, 4>(), 2, true); break;
    case 2: run<LM, 6>(Vector<double, 6>(), 3, true); break;
    case 3: run<LM, 5>(VecX(5), 2, false); break;
    case 4: run<LM, 4, VecX, SparseMat>(VecX(4), 1, true); break;
    default: run<GN, 5, VecX, SparseMat>(VecX(5), 3, false); break;
  }
  vf_reach("large");
}

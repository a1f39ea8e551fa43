// Two runs that get the same answers have to be the same run.
#pragma once
#include "opt.h"
// Answers like those of an earlier run.
template <int N, int M> static auto like(const Trace<N, M> &t) {
  return [&t](Eval<N> &v, int i) {
    vf_assert(i < t.n, "number of evaluations of the second run");
    vf_assume(i < t.n);
    const Eval<N> &e = t.e[i];
    vf_assert(v.built == e.built, "kind of evaluation of the second run");
    for (int j = 0; j < N; ++j) vf_eq(v.x[j], e.x[j], "point evaluated by the second run");
    v = e;
  };
}
template <typename H> static double entry(const H &h, int i, int j) {
  double r = 0;
  if (const MatX *d = std::get_if<MatX>(&h)) r = (*d)(i, j);
  else if (const SparseMat *s = std::get_if<SparseMat>(&h)) r = s->coeff(i, j);
  return r;
}
static void same_output(const Output &a, const Output &b, int N, bool kind = true, bool upper = false) {
  vf_assert(a.stop_reason == b.stop_reason, "same stop reason");
  vf_assert(a.num_iters == b.num_iters, "same number of iterations");
  vf_assert(a.num_failures == b.num_failures && a.num_consec_failures == b.num_consec_failures, "same number of failures");
  vf_assert(a.final_cost.num_resisuals == b.final_cost.num_resisuals && a.num_residuals == b.num_residuals, "same number of residuals");
  vf_eq(a.final_cost.cost, b.final_cost.cost, "same final cost");
  vf_eq(a.final_rerr_dec, b.final_rerr_dec, "same relative decrease");
  vf_assert(a.num_diff_used == b.num_diff_used, "same kind of differentiation");
  const bool lengths = a.errs.size() == b.errs.size() && a.deltas2.size() == b.deltas2.size() && a.successes.size() == b.successes.size() && a.errs.size() == a.deltas2.size() && a.errs.size() == a.successes.size();
  vf_assert(lengths, "same lengths of the histories");
  if (lengths) for (size_t i = 0; i < a.errs.size(); ++i) {
    vf_eq(a.errs[i], b.errs[i], "same costs");
    vf_eq(a.deltas2[i], b.deltas2[i], "same steps");
    vf_assert(a.successes[i] == b.successes[i], "same successes");
  }
  vf_assert(kind ? a.final_hessian.index() == b.final_hessian.index() : a.has_final_hessian() == b.has_final_hessian(), "same kind of Hessian");
  if (a.has_final_hessian() && b.has_final_hessian())
    for (int i = 0; i < N; ++i) for (int j = upper ? i : 0; j < N; ++j) vf_eq(entry(a.final_hessian, i, j), entry(b.final_hessian, i, j), "same Hessian");
}
template <int N, int M, typename X, typename Y>
static void same_run(const Trace<N, M> &t, const Trace<N, M> &u, const Output &a, const Output &b, const X &x, const Y &y, bool kind = true, bool upper = false) {
  vf_assert(t.n == u.n, "same number of evaluations");
  for (int i = 0; i < N; ++i) vf_eq(par(x, i), par(y, i), "same parameters");
  same_output(a, b, N, kind, upper);
}

// BOUND: systems of size 1..2 (static, dynamic, sparse) and 3 (static, one build); up to 3 rebuilt or cost-only evaluations with any steps between
#include "gsys.h"
using namespace tinyopt::solvers;

template <typename H_t, int N> struct Lm {
  Options o = quiet();
  SolverLM<H_t> s;
  VecX x = VecX::Zero(N);
  bool full;
  static Options make(bool ldlt, bool full, bool off = false) {
    Options o = quiet();
    o.hessian.use_ldlt = ldlt;
    o.hessian.H_is_full = full;
    o.lm.damping_init = off ? 0.0f : float(vf_range("init", 1e-4, 1e4));
    o.lm.damping_range = {{1e-9f, 1e9f}};
    return o;
  }
  Lm(bool ldlt, bool f, bool off = false) : o(make(ldlt, f, off)), s(o), full(f) { s.resize(N); }
  bool build(const Normal<N> &a, int n = 1) {
    return s.Build(x, [&](const auto &, auto &g, auto &H) {
      if constexpr (!traits::is_nullptr_v<decltype(g)>) {
        vf_assert(is_zero(g) && is_zero(H), "cleared before a build");
        a.add(g, H, full);
      }
      return Cost(vf_real("c"), n);
    });
  }
  void undamped(const Normal<N> &a, const char *label) { a.same(s.Gradient(), s.Hessian(), full, label); }
};
// One build: damped step, undamped report.
template <typename H_t, int N> static void once(bool ldlt, bool full) {
  Lm<H_t, N> t(ldlt, full);
  Normal<N> a;
  if constexpr (N == 3) a.definite_damped(t.o.lm.damping_init); else a.definite(1e-3);
  vf_assert(t.build(a), "build");
  const auto dx = t.s.Solve();
  vf_assert(dx.has_value(), "a definite system gives a step");
  if (dx) a.solved(*dx, t.o.lm.damping_init, "the step solves the damped system");
  t.undamped(a, "reported Hessian is not damped");
}
// VF: h_once cases=28
extern "C" void h_once() {
  const bool ldlt = vf_case() % 2 == 0, full = vf_case() / 2 % 2 == 0;
  switch (vf_case() / 4) {
    case 0: once<Matrix<double, 1, 1>, 1>(ldlt, full); break;
    case 1: once<Mat2, 2>(ldlt, full); break;
    case 2: once<MatX, 1>(ldlt, full); break;
    case 3: once<MatX, 2>(ldlt, full); break;
    case 4: once<SpMat, 1>(ldlt, full); break;
    case 5: once<SpMat, 2>(ldlt, full); break;
    default: once<Mat3, 3>(ldlt, full); break;
  }
  vf_reach("once");
}
// Sequences: each evaluation is rebuilt or only recomputes the cost, steps are good, bad or failed between them.
template <typename H_t, int N> static void sequence(int len, bool report) {
  Lm<H_t, N> t(true, true);
  Normal<N> a, b;
  a.definite(1e-3);
  b.definite(1e-3);
  const Normal<N> *cur = &a;
  double lambda = t.o.lm.damping_init, bad = 2;
  vf_assert(t.build(a), "build");
  for (int k = 0; k < len; ++k) {
    const int e = vf_pick("event", 0, 2);
    if (e == 0) { t.s.GoodStep(0); lambda *= double(t.o.lm.good_factor) / (bad != 2 ? bad : 1); bad = 2; }
    else { if (e == 1) t.s.BadStep(); else t.s.FailedStep(); lambda *= bad; bad *= 2; }
    if (lambda < t.o.lm.damping_range[0]) lambda = t.o.lm.damping_range[0];
    if (lambda > t.o.lm.damping_range[1]) lambda = t.o.lm.damping_range[1];
    if (report) t.undamped(*cur, "reported Hessian is not damped after a step");
    if (vf_bool("again")) continue;  // another step decision before the next evaluation
    const bool rebuild = vf_bool("rebuild");
    t.s.Rebuild(rebuild);
    if (rebuild) cur = &b;
    vf_assert(t.build(rebuild ? b : a), "build");
    const auto dx = t.s.Solve();
    vf_assert(dx.has_value(), "a definite system gives a step");
    if (dx) cur->solved(*dx, lambda, rebuild ? "the step solves the rebuilt damped system" : "the step solves the kept damped system");
    if (report) t.undamped(*cur, "reported Hessian is not damped");
  }
}
// VF: h_sequence cases=8
extern "C" void h_sequence() {
  const bool report = vf_case() % 2;
  switch (vf_case() / 2) {
    case 0: sequence<Matrix<double, 1, 1>, 1>(3, report); break;
    case 1: sequence<Mat2, 2>(2, report); break;
    case 2: sequence<MatX, 1>(3, report); break;
    default: sequence<SpMat, 1>(3, report); break;
  }
  vf_reach("sequence");
}
// Without damping the step of every evaluation solves the user's system, and a cost-only evaluation has the new cost.
template <typename H_t, int N> static void undamped() {
  Lm<H_t, N> t(true, true, true);
  Normal<N> a, b;
  a.definite(1e-3);
  b.definite(1e-3);
  const Normal<N> *cur = &a;
  double c = 0;
  const auto build = [&](const Normal<N> &m) {
    return t.s.Build(t.x, [&](const auto &, auto &g, auto &H) {
      if constexpr (!traits::is_nullptr_v<decltype(g)>) m.add(g, H, true);
      return Cost(c = vf_real("c"), N);
    });
  };
  vf_assert(build(a), "build without damping");
  for (int k = 0; k < 2; ++k) {
    if (vf_bool("good")) t.s.GoodStep(0); else t.s.BadStep();
    const bool rebuild = vf_bool("rebuild");
    t.s.Rebuild(rebuild);
    if (rebuild) cur = &b;
    vf_assert(build(rebuild ? b : a), "build without damping");
    vf_eq(t.s.cost().cost, c, "cost of an evaluation without damping");
    const auto dx = t.s.Solve();
    vf_assert(dx.has_value(), "a definite system gives a step without damping");
    if (dx) cur->solved(*dx, 0, "the step solves the system without damping");
    t.undamped(*cur, "reported Hessian without damping");
  }
}
// VF: h_undamped cases=3
extern "C" void h_undamped() {
  if (vf_case() == 0) undamped<Mat2, 2>();
  else if (vf_case() == 1) undamped<MatX, 1>();
  else undamped<SpMat, 2>();
  vf_reach("undamped");
}
// An evaluation that fails (no residuals, too small diagonal) keeps a consistent system for the next cost-only one.
// VF: h_failure cases=2
extern "C" void h_failure() {
  Lm<Mat2, 2> t(true, true);
  Normal<2> a;
  a.definite(1e-3);
  vf_assert(t.build(a), "build");
  t.s.BadStep();
  t.s.Rebuild(false);
  vf_assert(!t.build(a, 0), "no residuals");
  t.undamped(a, "reported Hessian is not damped after a failed evaluation");
  if (vf_case()) t.s.FailedStep();
  const double l = double(t.o.lm.damping_init) * (vf_case() ? 8 : 2);
  vf_assume(l < 1e8);
  vf_assert(t.build(a), "cost-only build");
  const auto dx = t.s.Solve();
  vf_assert(dx.has_value(), "a definite system gives a step");
  if (dx) a.solved(*dx, l, "the step solves the damped system after a failed evaluation");
  t.undamped(a, "reported Hessian is not damped");
  vf_reach("failure");
}
// Output of a whole run: the Hessian saved is the last one the user filled in.
template <typename H_t, int N, typename X> static void run(X x) {
  Options o = quiet();
  o.lm.damping_init = float(vf_range("init", 1e-4, 1e4));
  o.max_iters = vf_pick("iters", 0, 1);
  o.max_consec_failures = 2;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  lm::Optimizer<H_t> opt(o);
  Normal<N> a[2];
  for (auto &m : a) m.definite(1e-3);
  int k = 0, last = 0;
  const auto acc = [&](const auto &, auto &g, auto &H) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { last = k < 2 ? k : 1; a[last].add(g, H, true); }
    ++k;
    return Cost(vf_real("c"), 1);
  };
  const auto out = opt.OptimizeAcc(x, acc);
  vf_assert(out.has_final_hessian(), "Hessian saved");
  if constexpr (traits::is_sparse_matrix_v<H_t>) a[last].same(Eigen::Map<Vector<double, N>>(a[last].g), out.final_hessian_sparse(), true, "saved Hessian is not damped");
  else a[last].same(Eigen::Map<Vector<double, N>>(a[last].g), out.final_hessian_dense(), true, "saved Hessian is not damped");
}
// VF: h_run cases=4
extern "C" void h_run() {
  switch (vf_case()) {
    case 0: run<Matrix<double, 1, 1>, 1>(0.0); break;
    case 1: run<Mat2, 2>(Vec2(0, 0)); break;
    case 2: run<MatX, 1>(VecX(VecX::Zero(1))); break;
    default: run<SpMat, 1>(VecX(VecX::Zero(1))); break;
  }
  vf_reach("run");
}
// A run that ends because the system cannot be solved reports the user's Hessian.
// VF: h_unsolvable
extern "C" void h_unsolvable() {
  Options o = quiet();
  o.lm.damping_init = float(vf_range("init", 1e-4, 1e4));
  o.max_consec_failures = 2;
  lm::Optimizer<Mat2> opt(o);
  const double h = vf_range("h", 1, 10), c = vf_range("c", 1, 2);
  Vec2 x(0, 0);
  const auto out = opt.OptimizeAcc(x, [&](const auto &, auto &g, auto &H) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] = 1; g[1] = 1; H(0, 0) = -h; H(1, 1) = h; }
    return Cost(c, 2);
  });
  vf_assert(out.stop_reason == StopReason::kSolverFailed, "the system cannot be solved");
  vf_assert(out.has_final_hessian(), "Hessian saved");
  vf_eq(out.final_hessian_dense()(0, 0), -h, "saved Hessian is not damped after failures");
  vf_eq(out.final_hessian_dense()(1, 1), h, "saved Hessian is not damped after failures");
  vf_reach("unsolvable");
}

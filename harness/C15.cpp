// BOUND: gradients of size 1..6 (double and float), residual counts 0..4 for cost scaling (up to 100000 in runs of 3 iterations); any finite values
#include "gsys.h"
using namespace tinyopt::solvers;

static double clip(double g, double v) { return v == 0 ? g : g > v ? v : g < -v ? -v : g; }

template <typename S, int N> static void clipping(Options o) {
  const double v = vf_bool("clip") ? vf_range("v", 1e-6, 1e6) : 0;
  o.grad_clipping = float(v);
  S s(o);
  s.resize(N);
  Normal<N> a;
  a.any();
  for (int i = 0; i < N; ++i) vf_assume(a.h[i][i] > 1);
  const VecX x = VecX::Zero(N);
  bool ok;
  if constexpr (S::FirstOrder)
    ok = s.Build(x, [&](const auto &, auto &grad) { if constexpr (!traits::is_nullptr_v<decltype(grad)>) for (int i = 0; i < N; ++i) grad[i] += a.g[i]; return Cost(1.0, 1); });
  else
    ok = s.Build(x, [&](const auto &, auto &grad, auto &H) { if constexpr (!traits::is_nullptr_v<decltype(grad)>) a.add(grad, H, true); return Cost(1.0, 1); });
  vf_assert(ok, "build");
  for (int i = 0; i < N; ++i) vf_eq(s.Gradient()[i], clip(a.g[i], double(float(v))), "gradient clipped to the range");
}
// VF: h_clip cases=15
extern "C" void h_clip() {
  switch (vf_case()) {
    case 0: clipping<SolverGD<Vec2>, 2>(quiet()); break;
    case 1: clipping<SolverGD<VecX>, 3>(quiet()); break;
    case 2: clipping<SolverGN<Mat2>, 2>(quiet()); break;
    case 3: clipping<SolverGN<MatX>, 3>(quiet()); break;
    case 4: clipping<SolverGN<SpMat>, 2>(quiet()); break;
    case 5: clipping<SolverLM<Mat2>, 2>(quiet()); break;
    case 6: clipping<SolverLM<MatX>, 3>(quiet()); break;
    case 7: clipping<SolverLM<SpMat>, 2>(quiet()); break;
    case 8: clipping<SolverGD<Vector<double, 6>>, 6>(quiet()); break;
    case 9: clipping<SolverGD<VecX>, 5>(quiet()); break;
    case 10: clipping<SolverGN<MatX>, 5>(quiet()); break;
    case 11: clipping<SolverLM<Matrix<double, 5, 5>>, 5>(quiet()); break;
    case 12: clipping<SolverLM<SpMat>, 4>(quiet()); break;
    case 13: clipping<SolverGN<Matrix<float, 4, 4>>, 4>(quiet()); break;
    default: clipping<SolverGD<Vector<float, 3>>, 3>(quiet()); break;
  }
  vf_reach("clip");
}
// Clamp on scalars and vectors.
// VF: h_clamp
extern "C" void h_clamp() {
  SolverGN<Mat2> s(quiet());
  double g = vf_real("g");
  const double g0 = g, v = vf_nonneg("v");
  const bool r = s.Clamp(g, v);
  vf_eq(g, clip(g0, v), "scalar clamped");
  vf_assert(r == (v != 0), "clamping reports whether it is on");
  vf_reach("clamp");
}

static double scaled(double c, int n, bool sq, bool half, bool norm) {
  double e = c;
  if (!sq) e = std::sqrt(e);
  if (half) e = e / 2;
  if (norm && n > 0) e = e / n;
  return e;
}
template <typename S, int N> static void scaling() {
  Options o = quiet();
  const bool sq = vf_bool("sq"), half = vf_bool("half"), norm = vf_bool("norm");
  o.cost.use_squared_norm = sq;
  o.cost.downscale_by_2 = half;
  o.cost.normalize = norm;
  const double c = vf_nonneg("c");
  vf_assume(c < 1e30);
  const int n = vf_pick("n", 0, 4);
  S s(o);
  s.resize(N);
  Normal<N> a;
  a.any();
  for (int i = 0; i < N; ++i) vf_assume(a.h[i][i] > 1);
  const VecX x = VecX::Zero(N);
  bool ok;
  if constexpr (S::FirstOrder)
    ok = s.Build(x, [&](const auto &, auto &) { return Cost(c, n); });
  else
    ok = s.Build(x, [&](const auto &, auto &grad, auto &H) { if constexpr (!traits::is_nullptr_v<decltype(grad)>) a.add(grad, H, true); return Cost(c, n, 0.5f); });
  vf_assert(ok == (n > 0), "build is valid with residuals");
  vf_eq(s.cost().cost, scaled(c, n, sq, half, norm), "scaled cost");
  vf_assert(s.cost().num_resisuals == n, "scaling keeps the number of residuals");
}
// VF: h_scale cases=6
extern "C" void h_scale() {
  switch (vf_case()) {
    case 0: scaling<SolverGD<Vec2>, 2>(); break;
    case 1: scaling<SolverGD<VecX>, 1>(); break;
    case 2: scaling<SolverGN<Mat2>, 2>(); break;
    case 3: scaling<SolverGN<MatX>, 1>(); break;
    case 4: scaling<SolverLM<Mat2>, 2>(); break;
    default: scaling<SolverLM<SpMat>, 2>(); break;
  }
  vf_reach("scale");
}
// The cost of an evaluation without a rebuild, and of Evaluate, is scaled once like any other.
template <typename S> static void reeval() {
  Options o = quiet();
  const bool sq = vf_bool("sq"), half = vf_bool("half"), norm = vf_bool("norm");
  o.cost.use_squared_norm = sq;
  o.cost.downscale_by_2 = half;
  o.cost.normalize = norm;
  double c = vf_nonneg("c1");
  vf_assume(c < 1e30);
  int n = 3;
  S s(o);
  s.resize(2);
  const auto acc = [&](const auto &, auto &grad, auto &H) {
    if constexpr (!traits::is_nullptr_v<decltype(grad)>) { grad[0] += 1; H.coeffRef(0, 0) += 1; H.coeffRef(1, 1) += 1; }
    return Cost(c, n);
  };
  const Vec2 x(0, 0);
  s.Build(x, acc);
  vf_eq(s.cost().cost, scaled(c, n, sq, half, norm), "scaled cost of a build");
  const double before = s.cost().cost;
  c = vf_nonneg("c2");
  vf_assume(c < 1e30);
  n = 2;
  vf_eq(s.Evaluate(x, acc, false), scaled(c, n, sq, half, norm), "scaled cost of an evaluation");
  vf_eq(s.cost().cost, before, "an evaluation that is not saved keeps the cost");
  vf_eq(s.Evaluate(x, acc, true), scaled(c, n, sq, half, norm), "scaled cost of a saved evaluation");
  vf_eq(s.cost().cost, scaled(c, n, sq, half, norm), "scaled saved cost");
  s.Rebuild(false);
  c = vf_nonneg("c3");
  vf_assume(c < 1e30);
  n = 4;
  s.Build(x, acc);
  vf_eq(s.cost().cost, scaled(c, n, sq, half, norm), "scaled cost without rebuild");
}
// VF: h_reeval cases=3
extern "C" void h_reeval() {
  switch (vf_case()) {
    case 0: reeval<SolverLM<Mat2>>(); break;
    case 1: reeval<SolverLM<SpMat>>(); break;
    default: reeval<SolverGN<MatX>>(); break;
  }
  vf_reach("reeval");
}
// Steps follow from the clipped gradient.
template <typename S, int N> static void clipped_step() {
  Options o = quiet();
  const double v = vf_range("v", 1e-6, 1e6);
  o.grad_clipping = float(v);
  o.lm.damping_init = 0.5f;
  S s(o);
  s.resize(N);
  Normal<N> a;
  a.definite(1e-3);
  const VecX x = VecX::Zero(N);
  vf_assert(s.Build(x, [&](const auto &, auto &grad, auto &H) { if constexpr (!traits::is_nullptr_v<decltype(grad)>) a.add(grad, H, true); return Cost(1.0, 1); }), "build");
  const auto dx = s.Solve();
  vf_assert(dx.has_value(), "step");
  for (int i = 0; i < N; ++i) a.g[i] = clip(a.g[i], double(float(v)));
  if (dx) a.solved(*dx, std::is_base_of_v<SolverLM<typename S::H_t>, S> ? 0.5 : 0, "step of the clipped gradient");
}
// VF: h_clipped_step cases=4
extern "C" void h_clipped_step() {
  switch (vf_case()) {
    case 0: clipped_step<SolverGN<Matrix<double, 1, 1>>, 1>(); break;
    case 1: clipped_step<SolverGN<MatX>, 2>(); break;
    case 2: clipped_step<SolverLM<Matrix<double, 1, 1>>, 1>(); break;
    default: clipped_step<SolverLM<Mat2>, 2>(); break;
  }
  vf_reach("clipped_step");
}

// BOUND: gradients of size 1..6 (float, double, static, dynamic), two builds in a row; runs of 3 iterations (2 with clipping in several dimensions) with decreasing costs
#include "gsys.h"
using namespace tinyopt::solvers;

static double clip(double g, double v) { return v == 0 ? g : g > v ? v : g < -v ? -v : g; }

template <typename G, int N, typename X> static void step(const X &x) {
  Options o = quiet(Options::Solver::GradientDescent);
  const double lr = vf_real("lr"), v = vf_bool("clip") ? vf_range("v", 1e-3, 1e3) : 0;
  o.gd.lr = float(lr);
  o.grad_clipping = float(v);
  SolverGD<G> s(o);
  s.resize(N);
  double g1[N], g2[N];
  for (int i = 0; i < N; ++i) { g1[i] = vf_real("g1"); g2[i] = vf_real("g2"); }
  const double c = vf_real("c");
  vf_assert(s.Build(x, [&](const auto &, auto &grad) {
    if constexpr (!traits::is_nullptr_v<decltype(grad)>) for (int i = 0; i < N; ++i) grad[i] = g1[i];
    return Cost(c, 1);
  }), "build");
  vf_assert(s.Build(x, [&](const auto &, auto &grad) {
    if constexpr (!traits::is_nullptr_v<decltype(grad)>) {
      vf_assert(grad.size() == N, "size of the gradient");
      vf_assert(is_zero(grad), "gradient zeroed before an evaluation");
      for (int i = 0; i < N; ++i) grad[i] += g2[i];
    }
    return Cost(c, 1);
  }), "build");
  const auto dx = s.Solve();
  vf_assert(dx.has_value(), "an evaluation with residuals gives a step");
  if (!dx) return;
  vf_assert(dx->size() == N, "size of the step");
  for (int i = 0; i < N; ++i) {
    vf_eq((*dx)[i], -double(float(lr)) * clip(g2[i], double(float(v))), "step is minus the rate times the gradient");
    vf_eq(s.Gradient()[i], clip(g2[i], double(float(v))), "gradient is the user's");
  }
  vf_assert(s.dims() == N, "dimensions");
}
// VF: h_step cases=6
extern "C" void h_step() {
  switch (vf_case()) {
    case 0: step<Vec1, 1>(0.5); break;
    case 1: step<Vec2, 2>(Vec2(0, 0)); break;
    case 2: step<Vec3, 3>(Vec3(0, 0, 0)); break;
    case 3: step<VecX, 2>(VecX(VecX::Zero(2))); break;
    case 4: step<VecX, 3>(std::vector<double>(3, 0.0)); break;
    default: step<Vec2f, 2>(Vec2f(0, 0)); break;
  }
  vf_reach("step");
}
// VF: h_invalid
extern "C" void h_invalid() {
  SolverGD<Vec2> s(quiet());
  vf_assert(!s.Solve().has_value(), "no step before an evaluation");
  const int n = vf_pick("n", 0, 2);
  const double c = vf_bool("sentinel") ? std::numeric_limits<double>::max() : vf_real("c");
  const bool ok = s.Build(Vec2(0, 0), [&](const auto &, auto &) { return Cost(c, n); });
  const bool valid = n > 0 && c != std::numeric_limits<double>::max();
  vf_assert(ok == valid, "a build is valid exactly with residuals");
  vf_assert(s.Solve().has_value() == valid, "a step exactly after a valid build");
  vf_reach("invalid");
}
// VF: h_resize
extern "C" void h_resize() {
  Options o = quiet();
  o.gd.lr = 0.5f;
  SolverGD<VecX> s(o);
  s.resize(1);
  const double a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
  s.Build(VecX(1), [&](const auto &, auto &g) { if constexpr (!traits::is_nullptr_v<decltype(g)>) g[0] = a; return Cost(1.0, 1); });
  s.Build(VecX(2), [&](const auto &, auto &g) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      vf_assert(g.size() == 2 && is_zero(g), "resized and zeroed");
      g[0] = b; g[1] = c;
    }
    return Cost(1.0, 1);
  });
  const auto dx = s.Solve();
  vf_assert(dx && dx->size() == 2, "step of the new size");
  if (dx) { vf_eq((*dx)[0], -b / 2, "step after a resize"); vf_eq((*dx)[1], -c / 2, "step after a resize"); }
  s.reset();
  vf_assert(is_zero(s.Gradient()), "reset clears the gradient");
  vf_reach("resize");
}
// Whole runs: with decreasing costs every iteration moves by -lr*gradient.
template <typename G, int N, typename X> static void run(X x) {
  Options o = quiet(Options::Solver::GradientDescent);
  const bool cut = vf_bool("clip");
  const double lr = vf_pos("lr"), v = cut ? vf_range("v", 1e-3, 1e3) : 0;
  o.gd.lr = float(lr);
  o.grad_clipping = float(v);
  o.max_iters = N > 1 && cut ? 1 : 2;
  o.min_error = 0;
  o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  std::vector<double> cost;
  double prev = vf_real("c0");
  int k = 0;
  double xs[N], pos[N];
  const auto at = [](const X &x, int i) { if constexpr (std::is_scalar_v<X>) return double(x); else return double(x[i]); };
  for (int i = 0; i < N; ++i) {
    pos[i] = vf_real("x");
    if constexpr (std::is_scalar_v<X>) x = pos[i]; else x[i] = pos[i];
  }
  double g[N];
  const auto acc = [&](const auto &y, auto &grad) {
    for (int i = 0; i < N; ++i) vf_eq(at(y, i), pos[i], "evaluated where the previous steps lead");
    if constexpr (!traits::is_nullptr_v<decltype(grad)>)
      for (int i = 0; i < N; ++i) { g[i] = vf_real("g"); grad[i] += g[i]; pos[i] -= double(float(lr)) * clip(g[i], double(float(v))); }
    const double c = k++ ? prev - vf_pos("dec") : prev;
    prev = c;
    return Cost(c, 1);
  };
  gd::Optimizer<G> opt(o);
  const auto out = opt.OptimizeAcc(x, acc);
  vf_assert(k == o.max_iters + 1 && out.num_iters == k, "all iterations run");
  for (int i = 0; i < N; ++i) vf_eq(at(x, i), pos[i], "every accepted step moves by minus the rate times the gradient");
}
// VF: h_run cases=3
extern "C" void h_run() {
  switch (vf_case()) {
    case 0: run<Vec1, 1>(0.0); break;
    case 1: run<Vec2, 2>(Vec2(0, 0)); break;
    default: run<VecX, 2>(VecX(2)); break;
  }
  vf_reach("run");
}
// Functions that take a Hessian as well get none and are used like the others.
template <typename G, int N, typename X> static void three(X x) {
  Options o = quiet(Options::Solver::GradientDescent);
  const double lr = vf_pos("lr");
  o.gd.lr = float(lr);
  o.max_iters = 1;
  o.min_error = 0;
  o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0;
  double g[2][N];
  for (auto &r : g) for (double &v : r) v = vf_real("g");
  int k = 0;
  const auto acc = [&](const auto &, auto &grad, auto &H) {
    vf_assert(traits::is_nullptr_v<decltype(H)>, "no Hessian in gradient descent");
    if constexpr (!traits::is_nullptr_v<decltype(grad)>)
      for (int i = 0; i < N; ++i) { vf_eq(grad[i], 0, "gradient zeroed before an evaluation"); grad[i] += g[k][i]; }
    return Cost(2. - k++, 1);
  };
  SolverGD<G> s(o);
  s.resize(N);
  vf_assert(s.Build(x, acc), "build with three arguments");
  const auto dx = s.Solve();
  vf_assert(dx.has_value() && dx->size() == N, "step with three arguments");
  if (!dx || dx->size() != N) return;
  for (int i = 0; i < N; ++i) vf_eq((*dx)[i], -double(float(lr)) * g[0][i], "step with three arguments");
  k = 0;
  gd::Optimizer<G> opt(o);
  const auto out = opt.OptimizeAcc(x, acc);
  vf_assert(k == 2 && out.num_iters == 2, "iterations with three arguments");
  for (int i = 0; i < N; ++i) vf_eq(x[i], -double(float(lr)) * (g[0][i] + g[1][i]), "steps with three arguments");
}
// VF: h_three cases=3
extern "C" void h_three() {
  switch (vf_case()) {
    case 0: three<Vec2, 2>(Vec2(0, 0)); break;
    case 1: three<VecX, 3>(VecX(VecX::Zero(3))); break;
    default: three<Vector<double, 6>, 6>(Vector<double, 6>(Vector<double, 6>::Zero())); break;
  }
  vf_reach("three");
}

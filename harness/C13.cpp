// BOUND: sequences of up to 3 (thorough: 4) good/bad/failed steps with any factors, ranges, dampings and qualities
// BOUND: sequences of 9 (thorough: 11) good/bad/failed steps with fixed factors and any initial damping
#include "gsys.h"
using namespace tinyopt::solvers;

// Reference schedule.
struct Schedule {
  double lambda, bad, init, good0, bad0, lo, hi;
  Schedule(const Options &o) : lambda(o.lm.damping_init), bad(o.lm.bad_factor), init(lambda), good0(o.lm.good_factor), bad0(bad), lo(o.lm.damping_range[0]), hi(o.lm.damping_range[1]) {}
  void scale(double s) {
    if (init == 0) return;
    lambda *= s;
    if (lambda < lo) lambda = lo;
    if (lambda > hi) lambda = hi;
  }
  void good(double q) {
    double s = good0;
    if (q != 0) {
      const double t = 2 * q - 1, r = 1 - t * t * t;
      if (r > s) s = r;
    }
    if (bad != bad0) s /= bad;
    scale(s);
    bad = bad0;
  }
  void reject() {
    scale(bad);
    bad *= bad0;
  }
  void reset() { lambda = init; bad = bad0; }
};
static Options symbolic(bool zero) {
  Options o = quiet();
  o.lm.damping_init = zero ? 0.0f : float(vf_range("init", 1e-6, 1e6));
  const double lo = vf_range("lo", 1e-9, 1e6), hi = vf_real("hi");
  vf_assume(hi >= lo && hi <= 1e9);
  o.lm.damping_range = {{float(lo), float(hi)}};
  o.lm.good_factor = float(vf_range("good", 1e-3, 1));
  o.lm.bad_factor = float(vf_range("bad", 1, 100));
  return o;
}
// The damping seen through a one-dimensional system with unit Hessian: dx = -g/(1+lambda).
template <typename S, typename X> static void seen(S &s, const X &x, double lambda, const char *label) {
  s.Rebuild(true);
  const bool ok = s.Build(x, [&](const auto &, auto &g, auto &H) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] += -1; H.coeffRef(0, 0) += 1; }
    return Cost(1.0, 1);
  });
  vf_assert(ok, "build");
  const auto dx = s.Solve();
  vf_assert(dx.has_value(), "step");
  if (dx) vf_eq((*dx)[0] * (1 + lambda), 1, label);
}
template <typename H_t, typename X> static void sequence(const X &x, int n, bool zero) {
  const Options o = symbolic(zero);
  Schedule m(o);
  SolverLM<H_t> s(o);
  s.resize(1);
  seen(s, x, m.lambda, "initial damping");
  for (int k = 0; k < n; ++k) {
    switch (vf_pick("event", 0, 3)) {
      case 0: s.GoodStep(0); m.good(0); break;
      case 1: { const double q = vf_range("q", -1, 1); s.GoodStep(q); m.good(q); break; }
      case 2: s.BadStep(); m.reject(); break;
      default: s.FailedStep(); m.reject(); break;
    }
    if (!zero) {
      vf_le(m.lo, m.lambda, "damping above its minimum");
      vf_le(m.lambda, m.hi, "damping below its maximum");
    }
    seen(s, x, m.lambda, "damping follows its schedule");
  }
  s.reset();
  m.reset();
  seen(s, x, m.lambda, "reset restores the initial damping");
  s.BadStep();
  m.reject();
  seen(s, x, m.lambda, "reset restores the bad factor");
}
// VF: h_two
extern "C" void h_two() {
  sequence<Matrix<double, 1, 1>>(0.0, 2, false);
  vf_reach("two");
}
// VF: h_three cases=4 thorough.cases=4
extern "C" void h_three() {
  const Options o = symbolic(false);
  Schedule m(o);
  SolverLM<Matrix<double, 1, 1>> s(o);
  // The first event is fixed per case.
  switch (vf_case()) {
    case 0: s.GoodStep(0); m.good(0); break;
    case 1: { const double q = vf_range("q", -1, 1); s.GoodStep(q); m.good(q); break; }
    case 2: s.BadStep(); m.reject(); break;
    default: s.FailedStep(); m.reject(); break;
  }
  const int n = vf_tier() ? 3 : 2;
  for (int k = 0; k < n; ++k)
    switch (vf_pick("event", 0, 2)) {
      case 0: s.GoodStep(0); m.good(0); break;
      case 1: s.BadStep(); m.reject(); break;
      default: s.FailedStep(); m.reject(); break;
    }
  seen(s, 0.0, m.lambda, "damping follows its schedule");
  vf_reach("three");
}
// VF: h_dynamic cases=2
extern "C" void h_dynamic() {
  if (vf_case()) sequence<SpMat>(VecX(1), 1, false);
  else sequence<MatX>(VecX(1), 1, false);
  vf_reach("dynamic");
}
// With an initial damping of zero there is no damping, whatever happens.
// VF: h_zero cases=2
extern "C" void h_zero() {
  if (vf_case()) sequence<MatX>(VecX(1), 1, true);
  else sequence<Matrix<double, 1, 1>>(0.0, 2, true);
  vf_reach("zero");
}
// VF: h_float
extern "C" void h_float() {
  Options o = quiet();
  o.lm.damping_init = 0.25f;
  SolverLM<Matrix<float, 1, 1>> s(o);
  Schedule m(o);
  for (int k = 0; k < 3; ++k)
    if (vf_bool("good")) { s.GoodStep(0); m.good(0); } else { s.BadStep(); m.reject(); }
  seen(s, 0.0f, m.lambda, "damping follows its schedule (float)");
  vf_reach("float");
}
// Long sequences.
template <typename H_t, typename X> static void lengthy(const X &x, int n) {
  Options o = quiet();
  o.lm.damping_init = float(vf_range("init", 1e-3, 1));
  o.lm.damping_range = {{1e-30f, 1e30f}};
  o.lm.good_factor = 0.25f;
  o.lm.bad_factor = 2.0f;
  Schedule m(o);
  SolverLM<H_t> s(o);
  s.resize(1);
  for (int k = 0; k < n; ++k) {
    if (vf_bool("good")) { s.GoodStep(0); m.good(0); }
    else if (k % 3 == 1) { s.FailedStep(); m.reject(); }
    else { s.BadStep(); m.reject(); }
  }
  seen(s, x, m.lambda, "damping after a long sequence");
}
// VF: h_long cases=2
extern "C" void h_long() {
  if (vf_case()) lengthy<MatX>(VecX(1), 6 + vf_tier());
  else lengthy<Matrix<double, 1, 1>>(0.0, 9 + 2 * vf_tier());
  vf_reach("long");
}

// BOUND: any squared norm >= 0 and threshold > 0, double and float; argument Jacobians with 2 and 5 columns; vector forms with 2, 3 and 5 entries, static and dynamic
// BOUND: exp/log/atan2 are uninterpreted functions with their defining identities, so formulas are compared, not numerical values
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/losses/robust_norms.h>
using namespace tinyopt;
using namespace tinyopt::losses;

// The documented function rho(n2) and its derivative, per loss.
struct LTruncated {
  static constexpr bool kPiecewise = true, kSmooth = false, kSubSquare = true;
  template <typename... A> static auto f(const A &...a) { return Truncated(a...); }
  template <typename... A> static auto loss(const A &...a) { return TruncatedLoss(a...); }
  static double v(double n2, double t2) { return n2 <= t2 ? n2 : t2; }
  static double d(double n2, double t2) { return n2 <= t2 ? 1 : 0; }
};
struct LHuber {
  static constexpr bool kPiecewise = true, kSmooth = true, kSubSquare = true;
  template <typename... A> static auto f(const A &...a) { return Huber(a...); }
  template <typename... A> static auto loss(const A &...a) { return HuberLoss(a...); }
  static double v(double n2, double t2) { return n2 <= t2 ? n2 : 2 * std::sqrt(t2) * std::sqrt(n2) - t2; }
  static double d(double n2, double t2) { return n2 <= t2 ? 1 : std::sqrt(t2) / std::sqrt(n2); }
};
struct LTukey {
  static constexpr bool kPiecewise = true, kSmooth = true, kSubSquare = false;
  template <typename... A> static auto f(const A &...a) { return Tukey(a...); }
  template <typename... A> static auto loss(const A &...a) { return TukeyLoss(a...); }
  static double v(double n2, double t2) { const double s = 1 - n2 / t2; return n2 <= t2 ? t2 * (1 - s * s * s) : t2; }
  static double d(double n2, double t2) { const double s = 1 - n2 / t2; return n2 <= t2 ? 3 * s * s : 0; }
};
struct LArctan {
  static constexpr bool kPiecewise = false, kSmooth = true, kSubSquare = true;
  template <typename... A> static auto f(const A &...a) { return Arctan(a...); }
  template <typename... A> static auto loss(const A &...a) { return ArctanLoss(a...); }
  static double v(double n2, double t2) { const double t = std::sqrt(t2); return t * std::atan2(n2, t); }
  static double d(double n2, double t2) { return t2 / (t2 + n2 * n2); }
};
struct LCauchy {
  static constexpr bool kPiecewise = false, kSmooth = true, kSubSquare = true;
  template <typename... A> static auto f(const A &...a) { return Cauchy(a...); }
  template <typename... A> static auto loss(const A &...a) { return CauchyLoss(a...); }
  static double v(double n2, double t2) { return t2 * std::log(1 + n2 / t2); }
  static double d(double n2, double t2) { return t2 / (t2 + n2); }
};
struct LGeman {
  static constexpr bool kPiecewise = false, kSmooth = true, kSubSquare = false;
  template <typename... A> static auto f(const A &...a) { return GemanMcClure(a...); }
  template <typename... A> static auto loss(const A &...a) { return GemanMcClureLoss(a...); }
  static double v(double n2, double t2) { return n2 / (n2 + t2); }
  static double d(double n2, double t2) { return t2 / ((n2 + t2) * (n2 + t2)); }
};
struct LBlake {
  static constexpr bool kPiecewise = false, kSmooth = true, kSubSquare = true;
  template <typename... A> static auto f(const A &...a) { return BlakeZisserman(a...); }
  template <typename... A> static auto loss(const A &...a) { return BlakeZissermanLoss(a...); }
  static double v(double n2, double t2) { return -std::log(std::exp(-n2) + std::exp(-t2)); }
  static double d(double n2, double t2) { return std::exp(-n2) / (std::exp(-n2) + std::exp(-t2)); }
};

template <typename L, typename T, int C = 2> static void scalar() {
  const T t2 = vf_pos("th2"), n2 = vf_nonneg("n2");
  const double v = L::v(n2, t2), d = L::d(n2, t2);
  vf_eq(L::f(n2, t2), v, "value");
  auto [l, s] = L::f(n2, t2, true);
  vf_eq(l, v, "value with scale");
  vf_eq(s, d, "scale is the derivative");
  vf_le(0, s, "scale is not negative");
  if (L::kSubSquare) vf_le(s, 1, "loss grows no faster than the squared norm");
  RowVector<T, C> J;
  vf_fill(J, "J");
  auto [lj, sj] = L::f(n2, t2, J);
  vf_eq(lj, v, "value with Jacobian");
  vf_assert(sj.rows() == 1 && sj.cols() == C, "shape of the scaled Jacobian");
  for (int c = 0; c < C; ++c) vf_eq(sj(0, c), d * J[c], "scaled Jacobian");
  auto [lp, sp] = L::f(std::make_pair(n2, J), t2);
  vf_eq(lp, v, "value from a pair");
  for (int c = 0; c < C; ++c) vf_eq(sp(0, c), d * J[c], "scaled Jacobian from a pair");
}
template <typename L> static void threshold() {  // one-sided limits agree at n2 = th2
  const double t2 = vf_pos("th2");
  if (!L::kPiecewise) return;
  auto [l, s] = L::f(t2, t2, true);
  vf_eq(l, t2, "value at the threshold");
  // scale just above and below: continuous, so it differs by less than e for n2 within e*th2/4 of th2
  const double e = vf_range("e", 1e-6, 0.25), n2 = vf_pos("n2");
  vf_assume(n2 - t2 <= e * t2 / 8 && t2 - n2 <= e * t2 / 8);
  auto [l2, s2] = L::f(n2, t2, true);
  vf_le(l2 - l, e * t2, "value continuous at the threshold");
  vf_le(l - l2, e * t2, "value continuous at the threshold");
  if (L::kSmooth) {
    vf_le(s2 - s, e, "scale continuous at the threshold");
    vf_le(s - s2, e, "scale continuous at the threshold");
  }
}
template <typename L, typename V> static void vec(int n) {
  V x(n);
  vf_fill(x, "x");
  const double t2 = vf_pos("th2");
  double n2 = 0;
  for (int i = 0; i < n; ++i) n2 += x[i] * x[i];
  const double v = L::v(n2, t2), d = L::d(n2, t2);
  vf_eq(L::loss(x, t2), v, "vector loss value");
  auto [l, J] = L::loss(x, t2, true);
  vf_eq(l, v, "vector loss value with Jacobian");
  vf_assert(J.rows() == 1 && J.cols() == n, "vector loss Jacobian shape");
  for (int i = 0; i < n; ++i) vf_eq(J(0, i), 2 * d * x[i], "vector loss Jacobian");
  Matrix<double, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = L::loss(x, t2, Jx);
  vf_eq(lc, v, "vector loss value with chained Jacobian");
  for (int c = 0; c < 2; ++c) {
    double e = 0;
    for (int i = 0; i < n; ++i) e += 2 * d * x[i] * Jx(i, c);
    vf_eq(Jc(0, c), e, "vector loss chained Jacobian");
  }
}
// Differentiating the value on differentiation numbers gives the same scale.
template <typename L> static void jet() {
  const double t2 = vf_pos("th2"), n2 = vf_pos("n2"), dn = vf_real("dn");
  vf_assume(n2 != t2);
  diff::Jet<double, 1> j(n2);
  j.v[0] = dn;
  const auto r = L::f(j, t2);
  vf_eq(r.a, L::v(n2, t2), "value on differentiation numbers");
  vf_eq(r.v[0], L::d(n2, t2) * dn, "derivative on differentiation numbers");
}

#define BY_LOSS(call)                                     \
  switch (vf_case() % 7) {                                \
    case 0: { using L = LTruncated; call; break; }        \
    case 1: { using L = LHuber; call; break; }            \
    case 2: { using L = LTukey; call; break; }            \
    case 3: { using L = LArctan; call; break; }           \
    case 4: { using L = LCauchy; call; break; }           \
    case 5: { using L = LGeman; call; break; }            \
    default: { using L = LBlake; call; break; }           \
  }
// VF: h_scalar cases=21
extern "C" void h_scalar() {
  if (vf_case() < 7) { BY_LOSS((scalar<L, double>())) } else if (vf_case() < 14) { BY_LOSS((scalar<L, float>())) } else { BY_LOSS((scalar<L, double, 5>())) }
  vf_reach("scalar");
}
// VF: h_threshold cases=3
extern "C" void h_threshold() {
  BY_LOSS((threshold<L>()))
  vf_reach("threshold");
}
using Vec5_ = Vector<double, 5>;
// VF: h_vec cases=35
extern "C" void h_vec() {
  switch (vf_case() / 7) {
    case 0: BY_LOSS((vec<L, Vec2>(2))) break;
    case 1: BY_LOSS((vec<L, VecX>(2))) break;
    case 2: BY_LOSS((vec<L, Vec3>(3))) break;
    case 3: BY_LOSS((vec<L, Vec5_>(5))) break;
    default: BY_LOSS((vec<L, VecX>(5))) break;
  }
  vf_reach("vec");
}
// VF: h_jet cases=7
extern "C" void h_jet() {
  BY_LOSS((jet<L>()))
  vf_reach("jet");
}

// BOUND: vectors of size 1..3 (thorough 4), and of size 5..7 (activations with fixed values but three), static and dynamic, double and float; argument Jacobians with 2 columns; exp is an uninterpreted positive function with exp(a+b)=exp(a)exp(b)
// BOUND: scalar arguments: values only (the library returns no derivative for them)
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/losses/activations.h>
#include <tinyopt/losses/classif.h>
using namespace tinyopt;
using namespace tinyopt::losses;

struct ASigmoid {
  template <typename... A> static auto f(double, const A &...a) { return Sigmoid(a...); }
  static double v(double x, double) { return 1 / (1 + std::exp(-x)); }
  static double d(double x, double) { const double e = std::exp(-x); return e / ((1 + e) * (1 + e)); }
};
struct ATanh {
  template <typename... A> static auto f(double, const A &...a) { return Tanh(a...); }
  static double v(double x, double) { return std::tanh(x); }
  static double d(double x, double) { return 1 / (std::cosh(x) * std::cosh(x)); }
};
struct AReLU {
  template <typename... A> static auto f(double, const A &...a) { return ReLU(a...); }
  static double v(double x, double) { return x > 0 ? x : 0; }
  static double d(double x, double) { return x > 0 ? 1 : 0; }
};
struct ALeaky {
  template <typename X, typename... A> static auto f(double al, const X &x, const A &...a) { return LeakyReLU(x, (typename traits::params_trait<X>::Scalar)al, a...); }
  static double v(double x, double a) { return x > 0 ? x : a * x; }
  static double d(double x, double a) { return x > 0 ? 1 : a; }
};

// Up to four free entries, three in longer vectors.
template <typename V> static V values(int n) {
  V x(n);
  for (int i = 0; i < n; ++i) x[i] = n > 4 && i % 3 ? 0.5 * i - 1.25 : vf_real("x");
  return x;
}
template <typename A, typename V> static void act(int n) {
  const V x = values<V>(n);
  const double a = vf_real("a");
  const auto l = A::f(a, x);
  vf_assert(l.size() == n, "activation shape");
  for (int i = 0; i < n; ++i) vf_eq(l[i], A::v(x[i], a), "activation value");
  auto [lj, J] = A::f(a, x, true);
  vf_assert(J.rows() == n && J.cols() == n, "activation Jacobian shape");
  for (int i = 0; i < n; ++i) {
    vf_eq(lj[i], A::v(x[i], a), "activation value with Jacobian");
    for (int c = 0; c < n; ++c)
      if (i != c) vf_eq(J(i, c), 0, "activation Jacobian off the diagonal");
      else if (x[i] != 0) vf_eq(J(i, i), A::d(x[i], a), "activation Jacobian");
  }
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = A::f(a, x, Jx);
  vf_assert(Jc.rows() == n && Jc.cols() == 2, "activation chained Jacobian shape");
  for (int i = 0; i < n; ++i) {
    vf_eq(lc[i], A::v(x[i], a), "activation value with chained Jacobian");
    if (x[i] != 0) for (int c = 0; c < 2; ++c) vf_eq(Jc(i, c), A::d(x[i], a) * Jx(i, c), "activation chained Jacobian");
  }
}
template <typename A, typename T> static void scal() {
  const T x = vf_real("x");
  const double a = vf_real("a");
  vf_eq(A::f(a, x), A::v(x, a), "scalar activation value");
}
#define BY(call)                                    \
  switch (vf_case() % 4) {                          \
    case 0: { using A = ASigmoid; call; break; }    \
    case 1: { using A = ATanh; call; break; }       \
    case 2: { using A = AReLU; call; break; }       \
    default: { using A = ALeaky; call; break; }     \
  }
// VF: h_act cases=28 thorough.cases=32
extern "C" void h_act() {
  switch (vf_case() / 4) {
    case 0: BY((act<A, Vec1>(1))) break;
    case 1: BY((act<A, Vec2>(2))) break;
    case 2: BY((act<A, Vec3>(3))) break;
    case 3: BY((act<A, VecX>(2))) break;
    case 4: BY((act<A, Vec2f>(2))) break;
    case 5: BY((act<A, Vector<double, 5>>(5))) break;
    case 6: BY((act<A, VecX>(7))) break;
    default: BY((act<A, Vec4>(4))) break;
  }
  vf_reach("act");
}
// VF: h_scalar cases=8
extern "C" void h_scalar() {
  if (vf_case() < 4) { BY((scal<A, double>())) } else { BY((scal<A, float>())) }
  vf_reach("scalar");
}

template <bool Safe, typename V> static void soft(int n) {
  V x(n);
  vf_fill(x, "x");
  auto f = [](const auto &...a) { if constexpr (Safe) return SafeSoftmax(a...); else return Softmax(a...); };
  double sum = 0, s = 0, e[8];
  for (int i = 0; i < n; ++i) { e[i] = std::exp(double(x[i])); sum += e[i]; }
  const auto l = f(x);
  vf_assert(l.size() == n, "softmax shape");
  for (int i = 0; i < n; ++i) {
    vf_eq(l[i], e[i] / sum, "softmax value");
    vf_assert(l[i] > 0, "softmax is positive");
    s += l[i];
  }
  vf_eq(s, 1, "softmax sums to one");
  auto [lj, J] = f(x, true);
  vf_assert(J.rows() == n && J.cols() == n, "softmax Jacobian shape");
  for (int i = 0; i < n; ++i) {
    vf_eq(lj[i], e[i] / sum, "softmax value with Jacobian");
    for (int c = 0; c < n; ++c) vf_eq(J(i, c), i == c ? e[i] * (sum - e[i]) / (sum * sum) : -e[i] * e[c] / (sum * sum), "softmax Jacobian");
  }
  Matrix<typename V::Scalar, V::RowsAtCompileTime, 2> Jx(n, 2);
  vf_fill(Jx, "Jx");
  auto [lc, Jc] = f(x, Jx);
  vf_assert(Jc.rows() == n && Jc.cols() == 2, "softmax chained Jacobian shape");
  for (int i = 0; i < n; ++i) {
    vf_eq(lc[i], e[i] / sum, "softmax value with chained Jacobian");
    for (int c = 0; c < 2; ++c) {
      double r = 0;
      for (int k = 0; k < n; ++k) r += (i == k ? e[i] * (sum - e[i]) : -e[i] * e[k]) * Jx(k, c);
      vf_eq(Jc(i, c), r / (sum * sum), "softmax chained Jacobian");
    }
  }
}
#define SOFT(safe)                                 \
  switch (vf_case()) {                             \
    case 0: soft<safe, Vec1>(1); break;            \
    case 1: soft<safe, Vec2>(2); break;            \
    case 2: soft<safe, Vec3>(3); break;            \
    case 3: soft<safe, VecX>(2); break;            \
    case 4: soft<safe, Vec2f>(2); break;           \
    case 5: soft<safe, Vector<double, 5>>(5); break; \
    case 6: soft<safe, VecX>(6); break;            \
    default: soft<safe, Vec4>(4); break;           \
  }
// VF: h_soft cases=7 thorough.cases=8
extern "C" void h_soft() {
  SOFT(false)
  vf_reach("soft");
}
// VF: h_safe cases=7 thorough.cases=8
extern "C" void h_safe() {
  SOFT(true)
  vf_reach("safe");
}

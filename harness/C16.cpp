// BOUND: differentiation numbers over double (float for the operators) with 1..5 derivative parts (2 or 4 for functions; float as well), static and dynamic, empty ones standing for zeros
// BOUND: Bessel functions are not covered (their values are series of the standard library)
#include "vf.h"
#include <tinyopt/tinyopt.h>
using tinyopt::diff::Jet;

static const int D = Eigen::Dynamic;
template <typename J> static J make(const char *name, int n = 2, bool empty = false) {
  using T = typename J::Scalar;
  J x;
  x.a = T(vf_real(name));
  if (empty) return x;
  if constexpr (int(J::DIMENSION) == D) x.v.resize(n);
  for (int i = 0; i < n; ++i) x.v[i] = T(vf_real(name));
  return x;
}
template <typename J> static double der(const J &x, int i) { return x.v.size() ? double(x.v[i]) : 0.0; }
template <typename J> static void is(const J &y, double a, const char *name, int n, auto d) {
  vf_eq(y.a, a, name);
  vf_assert(y.v.size() == n || y.v.size() == 0, name);
  for (int i = 0; i < n; ++i) vf_eq(der(y, i), d(i), name);
}

// Operators.
template <typename J, int N> static void operators(bool ef, bool eg) {
  using T = typename J::Scalar;
  const J f = make<J>("f", N, ef), g = make<J>("g", N, eg);
  const T s = T(vf_real("s"));
  const double a = f.a, b = g.a, c = s;
  const auto df = [&](int i) { return der(f, i); };
  const auto dg = [&](int i) { return der(g, i); };
  is(+f, a, "+f", N, df);
  is(-f, -a, "-f", N, [&](int i) { return -df(i); });
  is(f + g, a + b, "f+g", N, [&](int i) { return df(i) + dg(i); });
  is(f - g, a - b, "f-g", N, [&](int i) { return df(i) - dg(i); });
  is(f * g, a * b, "f*g", N, [&](int i) { return df(i) * b + a * dg(i); });
  is(f + s, a + c, "f+s", N, df);
  is(s + f, a + c, "s+f", N, df);
  is(f - s, a - c, "f-s", N, df);
  is(s - f, c - a, "s-f", N, [&](int i) { return -df(i); });
  is(f * s, a * c, "f*s", N, [&](int i) { return df(i) * c; });
  is(s * f, a * c, "s*f", N, [&](int i) { return df(i) * c; });
  { J h = f; J &r = (h += g); vf_assert(&r == &h, "compound"); is(h, a + b, "f+=g", N, [&](int i) { return df(i) + dg(i); }); }
  { J h = f; h -= g; is(h, a - b, "f-=g", N, [&](int i) { return df(i) - dg(i); }); }
  { J h = f; h *= g; is(h, a * b, "f*=g", N, [&](int i) { return df(i) * b + a * dg(i); }); }
  { J h = f; h += s; is(h, a + c, "f+=s", N, df); }
  { J h = f; h -= s; is(h, a - c, "f-=s", N, df); }
  { J h = f; h *= s; is(h, a * c, "f*=s", N, [&](int i) { return df(i) * c; }); }
  { J h = f; h *= h; is(h, a * a, "f*=f", N, [&](int i) { return 2 * a * df(i); }); }
  { J h = f; h -= h; is(h, 0, "f-=f", N, [&](int) { return 0.0; }); }
  vf_assume(b != 0 && c != 0);
  is(f / g, a / b, "f/g", N, [&](int i) { return (df(i) * b - a * dg(i)) / (b * b); });
  is(f / s, a / c, "f/s", N, [&](int i) { return df(i) / c; });
  is(s / g, c / b, "s/g", N, [&](int i) { return -c * dg(i) / (b * b); });
  { J h = f; h /= g; is(h, a / b, "f/=g", N, [&](int i) { return (df(i) * b - a * dg(i)) / (b * b); }); }
  { J h = f; h /= s; is(h, a / c, "f/=s", N, [&](int i) { return df(i) / c; }); }
  { J h = g; h /= h; is(h, 1, "g/=g", N, [&](int) { return 0.0; }); }
}
// VF: h_operators cases=12
extern "C" void h_operators() {
  switch (vf_case()) {
    case 0: operators<Jet<double, 2>, 2>(false, false); break;
    case 1: operators<Jet<double, 1>, 1>(false, false); break;
    case 2: operators<Jet<float, 2>, 2>(false, false); break;
    case 3: operators<Jet<double, D>, 2>(false, false); break;
    case 4: operators<Jet<double, D>, 2>(true, false); break;
    case 5: operators<Jet<double, D>, 2>(false, true); break;
    case 6: operators<Jet<double, D>, 2>(true, true); break;
    case 7: operators<Jet<double, 5>, 5>(false, false); break;
    case 8: operators<Jet<double, D>, 5>(false, false); break;
    case 9: operators<Jet<double, D>, 4>(true, false); break;
    case 10: operators<Jet<double, D>, 4>(false, true); break;
    default: operators<Jet<float, 4>, 4>(false, false); break;
  }
  vf_reach("operators");
}
// Functions of one argument.
#define UN(f, domain, d)                                                                     \
  {                                                                                          \
    const J x = make<J>("x", N, empty);                                                      \
    const double a = x.a;                                                                    \
    vf_assume(domain);                                                                       \
    const double s = d;                                                                      \
    is(ceres::f(x), std::f(a), #f, N, [&](int i) { return s * der(x, i); });                 \
    break;                                                                                   \
  }
template <typename J, int N = 2> static void unary(int k, bool empty) {
  switch (k) {
    case 0: UN(abs, a != 0, a > 0 ? 1 : -1)
    case 1: UN(log, a > 0, 1 / a)
    case 2: UN(log10, a > 0, 1 / (a * std::log(10.0)))
    case 3: UN(log1p, a > -1, 1 / (1 + a))
    case 4: UN(exp, true, std::exp(a))
    case 5: UN(expm1, true, std::exp(a))
    case 6: UN(sqrt, a > 0, 1 / (2 * std::sqrt(a)))
    case 7: UN(cos, true, -std::sin(a))
    case 8: UN(acos, a > -1 && a < 1, -1 / std::sqrt(1 - a * a))
    case 9: UN(sin, true, std::cos(a))
    case 10: UN(asin, a > -1 && a < 1, 1 / std::sqrt(1 - a * a))
    case 11: UN(tan, true, 1 / (std::cos(a) * std::cos(a)))
    case 12: UN(atan, true, 1 / (1 + a * a))
    case 13: UN(sinh, true, std::cosh(a))
    case 14: UN(cosh, true, std::sinh(a))
    case 15: UN(tanh, true, 1 / (std::cosh(a) * std::cosh(a)))
    case 16: UN(cbrt, a != 0, 1 / (3 * std::cbrt(a) * std::cbrt(a)))
    case 17: UN(exp2, true, std::exp2(a) * std::log(2.0))
    case 18: UN(log2, a > 0, 1 / (a * std::log(2.0)))
    case 19: UN(erf, true, 1.1283791670955126 * std::exp(-a * a))
    case 20: UN(erfc, true, -1.1283791670955126 * std::exp(-a * a))
    case 21: UN(norm, true, 2 * a)
    case 22: UN(floor, a != std::floor(a), 0)
    default: UN(ceil, a != std::ceil(a), 0)
  }
}
// VF: h_unary cases=120
extern "C" void h_unary() {
  if (vf_case() / 24 == 0) unary<Jet<double, 2>>(vf_case() % 24, false);
  else if (vf_case() / 24 < 3) unary<Jet<double, D>>(vf_case() % 24, vf_case() / 24 == 2);
  else if (vf_case() / 24 == 3) unary<Jet<double, 4>, 4>(vf_case() % 24, false);
  else unary<Jet<double, D>, 4>(vf_case() % 24, false);
  vf_reach("unary");
}
// Functions of several arguments.
template <typename J, int N = 2> static void several(int k, bool ef, bool eg) {
  const J f = make<J>("f", N, ef), g = make<J>("g", N, eg);
  const double a = f.a, b = g.a;
  const auto df = [&](int i) { return der(f, i); };
  const auto dg = [&](int i) { return der(g, i); };
  switch (k) {
    case 0: {
      vf_assume(a != 0 || b != 0);
      const double h = std::sqrt(a * a + b * b);
      is(ceres::hypot(f, g), h, "hypot", N, [&](int i) { return (a * df(i) + b * dg(i)) / h; });
      break;
    }
    case 1: {
      const J t = make<J>("t", N);
      const double c = t.a;
      vf_assume(a != 0 || b != 0 || c != 0);
      const double h = std::sqrt(a * a + b * b + c * c);
      is(ceres::hypot(f, g, t), h, "hypot of three", N, [&](int i) { return (a * df(i) + b * dg(i) + c * der(t, i)) / h; });
      break;
    }
    case 2: {
      const J t = make<J>("t", N);
      is(ceres::fma(f, g, t), a * b + double(t.a), "fma", N, [&](int i) { return df(i) * b + a * dg(i) + der(t, i); });
      break;
    }
    case 3:
      vf_assume(a != b);
      is(ceres::fmax(f, g), a > b ? a : b, "fmax", N, [&](int i) { return a > b ? df(i) : dg(i); });
      is(ceres::fmin(f, g), a < b ? a : b, "fmin", N, [&](int i) { return a < b ? df(i) : dg(i); });
      is(ceres::fdim(f, g), a > b ? a - b : 0, "fdim", N, [&](int i) { return a > b ? df(i) - dg(i) : 0; });
      break;
    case 4: {
      vf_assume(a == b);
      for (int i = 0; i < N; ++i) vf_assume(df(i) == dg(i));
      is(ceres::fmax(f, g), a, "fmax of equal numbers", N, df);
      is(ceres::fmin(f, g), a, "fmin of equal numbers", N, df);
      break;
    }
    case 5:
      vf_assume(a != 0 && b != 0);
      is(ceres::copysign(f, g), b > 0 ? std::abs(a) : -std::abs(a), "copysign", N, [&](int i) { return (a > 0) == (b > 0) ? df(i) : -df(i); });
      break;
    case 6: {
      const J t = make<J>("t", N);
      const double c = t.a;
      is(ceres::lerp(f, g, t), a + c * (b - a), "lerp", N, [&](int i) { return (1 - c) * df(i) + c * dg(i) + (b - a) * der(t, i); });
      break;
    }
    case 7: is(ceres::midpoint(f, g), (a + b) / 2, "midpoint", N, [&](int i) { return (df(i) + dg(i)) / 2; }); break;
    case 8:
      vf_assume(a != 0 || b > 0);
      is(ceres::atan2(f, g), std::atan2(a, b), "atan2", N, [&](int i) { return (b * df(i) - a * dg(i)) / (a * a + b * b); });
      break;
    case 9: {
      vf_assume(a > 0);
      const double p = std::pow(a, b);
      is(ceres::pow(f, g), p, "pow", N, [&](int i) { return p * (b / a * df(i) + std::log(a) * dg(i)); });
      break;
    }
    case 10: {
      vf_assume(a > 0);
      const double c = vf_real("c");
      is(ceres::pow(f, c), std::pow(a, c), "pow with a constant exponent", N, [&](int i) { return c * std::pow(a, c - 1) * df(i); });
      break;
    }
    case 11: {
      const double c = vf_pos("c"), p = std::pow(c, b);
      is(ceres::pow(c, g), p, "pow of a constant", N, [&](int i) { return std::log(c) * p * dg(i); });
      break;
    }
    case 12: {
      is(ceres::pow(f, 1.0), a, "power of one", N, df);
      is(ceres::pow(f, 2.0), a * a, "square", N, [&](int i) { return 2 * a * df(i); });
      is(ceres::pow(f, 3.0), a * a * a, "cube", N, [&](int i) { return 3 * a * a * df(i); });
      vf_assume(a != 0);
      is(ceres::pow(f, -1.0), 1 / a, "power of minus one", N, [&](int i) { return -df(i) / (a * a); });
      break;
    }
    case 13: {  // negative base, exponents that are whole constants
      vf_assume(a < 0);
      J n(vf_pick("n", 1, 3));
      if constexpr (int(J::DIMENSION) == D) if (!eg) n.v.setZero(N);
      const double m = n.a;
      is(ceres::pow(f, n), std::pow(a, m), "pow of a negative number", N, [&](int i) { return m * std::pow(a, m - 1) * df(i); });
      break;
    }
    case 14: {  // zero base
      vf_assume(a == 0 && b > 1);
      is(ceres::pow(f, g), 0, "pow of zero", N, [&](int) { return 0.0; });
      is(ceres::pow(0.0, g), 0, "pow of constant zero", N, [&](int) { return 0.0; });
      break;
    }
    default: {
      J n(vf_pick("n", 1, 3));
      if constexpr (int(J::DIMENSION) == D) if (!eg) n.v.setZero(N);
      const double m = n.a, c = -vf_pos("c");
      is(ceres::pow(c, n), std::pow(c, m), "pow of a negative constant", N, [&](int) { return 0.0; });
      n.v = f.v;  // not differentiable, but the value is defined
      vf_eq(ceres::pow(c, n).a, std::pow(c, m), "value of the power of a negative constant");
    }
  }
}
// VF: h_several cases=80
extern "C" void h_several() {
  const int k = vf_case() % 16;
  switch (vf_case() / 16) {
    case 0: several<Jet<double, 2>>(k, false, false); break;
    case 1: several<Jet<double, D>>(k, false, false); break;
    case 2: several<Jet<double, D>>(k, false, true); break;
    case 3: several<Jet<double, 4>, 4>(k, false, false); break;
    default: several<Jet<double, D>, 4>(k, true, false); break;
  }
  vf_reach("several");
}
// Comparisons and classification look at the value only, for any value.
// VF: h_compare cases=3
extern "C" void h_compare() {
  Jet<double, 2> f, g;
  f.a = vf_any("f");
  g.a = vf_any("g");
  const double a = f.a, b = g.a;
  for (int i = 0; i < 2; ++i) { f.v[i] = vf_real("df"); g.v[i] = vf_real("dg"); }
  switch (vf_case()) {
    case 0:
      vf_assert((f < g) == (a < b) && (f <= g) == (a <= b) && (f > g) == (a > b) && (f >= g) == (a >= b) && (f == g) == (a == b) && (f != g) == (a != b), "comparison of two");
      vf_assert((f < b) == (a < b) && (f <= b) == (a <= b) && (f > b) == (a > b) && (f >= b) == (a >= b) && (f == b) == (a == b) && (f != b) == (a != b), "comparison with a scalar");
      vf_assert((a < g) == (a < b) && (a <= g) == (a <= b) && (a > g) == (a > b) && (a >= g) == (a >= b) && (a == g) == (a == b) && (a != g) == (a != b), "comparison of a scalar");
      break;
    case 1:
      vf_assert(ceres::isless(f, g) == (a < b) && ceres::isgreater(f, g) == (a > b) && ceres::islessequal(f, g) == (a <= b) && ceres::isgreaterequal(f, g) == (a >= b) && ceres::islessgreater(f, g) == (a < b || a > b) && ceres::isunordered(f, g) == (a != a || b != b), "comparison functions");
      break;
    default:
      vf_assert(ceres::isfinite(f) == std::isfinite(a) && ceres::isinf(f) == std::isinf(a) && ceres::isnan(f) == std::isnan(a), "classification");
  }
  vf_reach("compare");
}
// Construction, limits and mixed expressions.
// VF: h_make
extern "C" void h_make() {
  using J = Jet<double, 3>;
  const double s = vf_real("s");
  const J z, c(s), e(s, 1);
  is(z, 0, "default", 3, [](int) { return 0.0; });
  is(c, s, "constant", 3, [](int) { return 0.0; });
  is(e, s, "variable", 3, [](int i) { return i == 1 ? 1.0 : 0.0; });
  const J r(s, Eigen::Vector3d(1, 2, 3));
  is(r, s, "value and derivatives", 3, [](int i) { return i + 1.0; });
  is(J(std::numeric_limits<J>::max()), std::numeric_limits<double>::max(), "limits", 3, [](int) { return 0.0; });
  is(J(std::numeric_limits<J>::epsilon()), std::numeric_limits<double>::epsilon(), "limits", 3, [](int) { return 0.0; });
  const J x = make<J>("x", 3);
  const double a = x.a;
  is(2.0 * x * x - x / 4.0 + 1.0, 2 * a * a - a / 4 + 1, "mixed expression", 3, [&](int i) { return (4 * a - 0.25) * x.v[i]; });
  const Jet<double, D> k(s);
  vf_eq(k.a, s, "dynamic constant");
  vf_assert(k.v.size() == 0, "dynamic constant has no derivatives");
  vf_reach("make");
}

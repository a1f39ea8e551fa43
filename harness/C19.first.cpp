// BOUND: residual functions without a Hessian
#include "pars.h"
// VF: h_first
extern "C" void h_first() {
  Vec2 x(vf_real("x"), vf_real("y"));
  const double a = vf_real("a"), b = vf_real("b"), c = vf_real("c"), eps = vf_range("eps", 1e-9, 1), e0 = vf_any("e"), e1 = vf_any("e");
  vf_assume(e0 != eps && e0 != -eps && e1 != eps && e1 != -eps);
  const bool ok = e0 > -eps && e0 < eps && e1 > -eps && e1 < eps;
  const bool downscale = vf_bool("downscale");
  const auto f = [&](const auto &p, auto &g) {
    const double r = a * p[0] + b * p[1] + c, s = downscale ? 1 : 2;
    if constexpr (!traits::is_nullptr_v<decltype(g)>) { g[0] = s * a * r + e0; g[1] = s * b * r + e1; }
    return r;
  };
  vf_assert(diff::CheckResidualsGradient(x, f, eps, diff::Method::kCentral, false, true, downscale) == ok, "residuals and gradient only");
  vf_reach("first");
}

// BOUND: systems of size 4..6, dense static/dynamic and sparse, double and float, with a fixed definite Hessian, any gradient and any initial damping: a build, a cost-only evaluation after a rejected step and a rebuild after an accepted one
#include "gsys.h"
#include "large.h"
using namespace tinyopt::solvers;

template <typename H_t, int N> static void sequence(bool ldlt, bool full, bool any) {
  Options o = quiet();
  o.hessian.use_ldlt = ldlt;
  o.hessian.H_is_full = full;
  o.lm.damping_init = any ? float(vf_range("init", 1e-2, 10)) : vf_bool("high") ? 2.0f : 0.125f;
  o.lm.damping_range = {{1e-9f, 1e9f}};
  o.lm.good_factor = 0.5f;
  SolverLM<H_t> s(o);
  using Scalar = typename SolverLM<H_t>::Scalar;
  Vector<Scalar, Dynamic> x = Vector<Scalar, Dynamic>::Zero(N);
  s.resize(N);
  Normal<N> a, b;
  large(a.h, 1, 3);
  large(b.h, N - 1, 2);
  const bool filled = full || (!ldlt && !traits::is_sparse_matrix_v<H_t>);
  const auto build = [&](const Normal<N> &m) {
    return s.Build(x, [&](const auto &, auto &g, auto &H) {
      if constexpr (!traits::is_nullptr_v<decltype(g)>) {
        vf_assert(is_zero(g) && is_zero(H), "cleared before a large build");
        m.add(g, H, full);
      }
      return Cost(1.0, N);
    });
  };
  double lambda = o.lm.damping_init;
  const auto look = [&](const Normal<N> &m, const char *label) {
    const auto dx = s.Solve();
    vf_assert(dx.has_value(), "a large definite system gives a step");
    if (dx) m.solved(*dx, lambda, label);
    m.same(s.Gradient(), s.Hessian(), filled, "reported large Hessian is not damped");
  };
  vf_assert(build(a), "build of a large system");
  look(a, "the step solves the large damped system");
  if (vf_bool("bad")) {
    s.BadStep();
    lambda *= 2;
    s.Rebuild(false);
    vf_assert(build(b), "cost-only evaluation of a large system");
    look(a, "the step solves the kept large damped system");
  } else {
    s.GoodStep(0);
    lambda *= 0.5;
    s.Rebuild(true);
    vf_assert(build(b), "build of a large system");
    look(b, "the step solves the rebuilt large damped system");
  }
}
// VF: h_large cases=7
extern "C" void h_large() {
  switch (vf_case()) {
    case 0: sequence<Matrix<double, 4, 4>, 4>(true, vf_bool("full"), true); break;
    case 1: sequence<Matrix<double, 6, 6>, 6>(true, false, false); break;
    case 2: sequence<MatX, 4>(true, true, false); break;
    case 3: sequence<Matrix<double, 4, 4>, 4>(false, false, false); break;
    case 4: sequence<SpMat, 4>(true, vf_bool("full"), false); break;
    case 5: sequence<SpMat, 5>(true, false, false); break;
    default: sequence<Matrix<float, 4, 4>, 4>(true, false, false); break;
  }
  vf_reach("large");
}

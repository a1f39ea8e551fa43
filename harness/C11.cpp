// BOUND: systems of size 1..3 (size 3 static, or sparse without one coupling), dense static/dynamic and sparse; two builds in a row
// BOUND: without factorisation, one-dimensional Hessians are above the library's epsilon (smaller ones count as zero)
#include "gsys.h"
using namespace tinyopt::solvers;

template <typename H_t, int N> static void step(bool ldlt, bool full) {
  Options o = quiet(Options::Solver::GaussNewton);
  o.hessian.use_ldlt = ldlt;
  o.hessian.H_is_full = full;
  SolverGN<H_t> s(o);
  VecX x = VecX::Zero(N);
  s.resize(N);
  Normal<N> a, b;
  a.any();
  b.definite(1e-3);
  const Normal<N> *cur = &a;
  const double c = vf_real("cost");
  const auto acc = [&](const auto &, auto &grad, auto &H) {
    vf_assert(grad.size() == N && H.rows() == N && H.cols() == N, "size of the system");
    vf_assert(is_zero(grad), "gradient cleared before a build");
    vf_assert(is_zero(H), "Hessian cleared before a build");
    cur->add(grad, H, full);
    return Cost(c, N);
  };
  vf_assert(s.Build(x, acc), "build");
  cur = &b;
  vf_assert(s.Build(x, acc), "build");
  b.same(s.Gradient(), s.Hessian(), full || (!ldlt && !traits::is_sparse_matrix_v<H_t>), "the system is the user's");
  vf_eq(s.cost().cost, c, "cost of the build");
  const auto dx = s.Solve();
  vf_assert(dx.has_value(), "a definite system gives a step");
  if (dx) b.solved(*dx, 0, "the step solves the normal equations");
  b.same(s.Gradient(), s.Hessian(), full || (!ldlt && !traits::is_sparse_matrix_v<H_t>), "solving keeps the system");
}
#define SHAPES(ldlt, full)                                     \
  switch (vf_case() / 4) {                                     \
    case 0: step<Matrix<double, 1, 1>, 1>(ldlt, full); break;  \
    case 1: step<Mat2, 2>(ldlt, full); break;                  \
    case 2: step<MatX, 1>(ldlt, full); break;                  \
    case 3: step<MatX, 2>(ldlt, full); break;                  \
    case 4: step<SpMat, 1>(ldlt, full); break;                 \
    case 5: step<SpMat, 2>(ldlt, full); break;                 \
    default: step<Mat3, 3>(ldlt, full); break;                 \
  }
// VF: h_step cases=28
extern "C" void h_step() {
  SHAPES(vf_case() % 2 == 0, vf_case() / 2 % 2 == 0)
  vf_reach("step");
}
// A diagonal entry below the configured minimum makes the build fail, no other diagonal does.
template <typename H_t, int N> static void diag() {
  Options o = quiet(Options::Solver::GaussNewton);
  const float m = vf_bool("check") ? vf_range("min", 1e-3, 1e3) : 0;
  o.hessian.check_min_H_diag = m;
  SolverGN<H_t> s(o);
  s.resize(N);
  VecX x = VecX::Zero(N);
  Normal<N> a;
  a.any();
  const auto acc = [&](const auto &, auto &grad, auto &H) { a.add(grad, H, true); return Cost(1.0, N); };
  const bool ok = s.Build(x, acc);
  bool low = false;
  for (int i = 0; i < N; ++i) low = low || std::abs(a.h[i][i]) < m;
  vf_assert(ok == !(m > 0 && low), "build fails exactly for a diagonal below the minimum");
}
// VF: h_diag cases=4
extern "C" void h_diag() {
  switch (vf_case()) {
    case 0: diag<Mat2, 2>(); break;
    case 1: diag<MatX, 2>(); break;
    case 2: diag<SpMat, 2>(); break;
    default: diag<Mat3, 3>(); break;
  }
  vf_reach("diag");
}
// A system of another size: dynamic solvers follow the parameters.
// VF: h_resize
extern "C" void h_resize() {
  SolverGN<MatX> s(quiet());
  Normal<1> a;
  Normal<2> b;
  a.definite();
  b.definite();
  s.resize(1);
  vf_assert(s.Build(VecX(1), [&](const auto &, auto &g, auto &H) { a.add(g, H, true); return Cost(1.0, 1); }), "build of one dimension");
  const auto da = s.Solve();
  vf_assert(da.has_value(), "step in one dimension");
  if (da) a.solved(*da, 0, "step in one dimension");
  vf_assert(s.Build(VecX(2), [&](const auto &, auto &g, auto &H) {
    vf_assert(g.size() == 2 && H.rows() == 2 && H.cols() == 2 && is_zero(g) && is_zero(H), "resized and cleared");
    b.add(g, H, true);
    return Cost(1.0, 1);
  }), "build of two dimensions");
  const auto db = s.Solve();
  vf_assert(db.has_value() && db->size() == 2, "step in two dimensions");
  if (db) b.solved(*db, 0, "step in two dimensions");
  vf_reach("resize");
}
// No step without a valid evaluation.
// VF: h_invalid
extern "C" void h_invalid() {
  SolverGN<Mat2> s(quiet());
  Normal<2> a;
  a.definite();
  vf_assert(!s.Solve().has_value(), "no step before an evaluation");
  const int n = vf_pick("n", 0, 2);
  const double c = vf_bool("sentinel") ? std::numeric_limits<double>::max() : vf_real("c");
  const bool ok = s.Build(Vec2(), [&](const auto &, auto &g, auto &H) { a.add(g, H, true); return Cost(c, n); });
  const bool valid = n > 0 && c != std::numeric_limits<double>::max();
  vf_assert(ok == valid, "a build is valid exactly with residuals");
  vf_assert(s.Solve().has_value() == valid, "a step exactly after a valid build");
  vf_reach("invalid");
}
// InitWith and reset.
// VF: h_init
extern "C" void h_init() {
  SolverGN<Mat2> s(quiet());
  Vec2 g;
  Mat2 H;
  vf_fill(g, "g");
  vf_fill(H, "H");
  s.InitWith(g, H);
  vf_eqm(s.Gradient(), g, "initial gradient");
  vf_eqm(s.Hessian(), H, "initial Hessian");
  vf_eq(s.GradientSquaredNorm(), g[0] * g[0] + g[1] * g[1], "squared gradient norm");
  s.reset();
  vf_assert(is_zero(s.Gradient()) && is_zero(s.Hessian()), "reset clears the system");
  vf_assert(s.dims() == 2, "dimensions");
  vf_reach("init");
}

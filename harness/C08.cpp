// BOUND: systems of size 1..3, static and dynamic storage, double (size 1..2 also float); the lower triangle holds unrelated values
// BOUND: indefinite systems of size 3 have one coupled pair of variables; size 3 uses static storage
// BOUND: float matrices have entries below 1e6 and determinant above 1e-6 (pivots below the smallest normal float count as zero in Eigen)
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/math.h>
using namespace tinyopt;

template <int N, bool Dyn, typename T = double> struct Sys {
  static constexpr int D = Dyn ? Dynamic : N;
  Matrix<T, D, D> A{N, N};
  Vector<T, D> b{N};
  double a(int i, int j) const { return i <= j ? A(i, j) : A(j, i); }
  Sys() {
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) A(i, j) = vf_real(i <= j ? "a" : "lower");
  }
  void rhs() { for (int i = 0; i < N; ++i) b[i] = vf_real("b"); }
  double quad(const double *v) const {
    double q = 0;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) q += v[i] * a(i, j) * v[j];
    return q;
  }
  // Sizes 1, 2: leading principal minors.  Size 3: through the Cholesky factor, which every definite matrix has.
  void definite() {
    if constexpr (N <= 2) {
      vf_assume(a(0, 0) > 0);
      if constexpr (N == 2) vf_assume(a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 0);
      if constexpr (sizeof(T) == 4) {
        vf_assume(a(0, 0) < 1e6 && a(0, 0) > 1e-6);
        if constexpr (N == 2) vf_assume(a(1, 1) < 1e6 && a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 1e-6);
      }
    } else {
      double l[N][N] = {};
      for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) l[i][j] = i == j ? vf_pos("l") : vf_real("l");
      for (int j = 0; j < N; ++j)
        for (int i = 0; i <= j; ++i) { double r = 0; for (int k = 0; k <= i; ++k) r += l[i][k] * l[j][k]; A(i, j) = r; }
    }
  }
  double det3() const {
    return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(1, 2)) - a(0, 1) * (a(0, 1) * a(2, 2) - a(1, 2) * a(0, 2)) + a(0, 2) * (a(0, 1) * a(1, 2) - a(1, 1) * a(0, 2));
  }
  template <typename X> void solves(const X &x, const char *label) const {
    vf_assert(x.size() == N, label);
    for (int i = 0; i < N; ++i) {
      double r = 0;
      for (int j = 0; j < N; ++j) r += a(i, j) * x[j];
      vf_eq(r, b[i], label);
    }
  }
};

template <typename S> static void definite() {
  S s;
  s.definite();
  s.rhs();
  const auto x = SolveLDLT(s.A, s.b);
  vf_assert(x.has_value(), "a definite system is never refused");
  if (x) s.solves(*x, "the solution of a definite system solves it");
}
template <typename S> static void indefinite(int n) {
  S s;
  double v[4];
  for (int i = 0; i < n; ++i) v[i] = vf_real("v");
  vf_assume(s.quad(v) < 0);  // v is a direction of negative curvature
  s.rhs();
  vf_assert(!SolveLDLT(s.A, s.b).has_value(), "an indefinite system is refused");
}
// Size 3 with one coupled pair (p,q): 2x2 block plus a separate entry.
template <typename S> static void indefinite3(int p, int q) {
  S s;
  for (int j = 0; j < 3; ++j) for (int i = 0; i < j; ++i) if (i != p || j != q) s.A(i, j) = 0;
  double v[3];
  for (int i = 0; i < 3; ++i) v[i] = vf_real("v");
  vf_assume(s.quad(v) < 0);
  s.rhs();
  vf_assert(!SolveLDLT(s.A, s.b).has_value(), "an indefinite system is refused");
}
// Semi-definite systems A = G*G^T (G with one column less than rows), consistent or not.
template <typename S> static void singular(int n, bool consistent) {
  S s;
  double g[4], y[4];
  for (int i = 0; i < n; ++i) g[i] = vf_real("g");
  for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) s.A(i, j) = g[i] * g[j];
  if (consistent) {
    for (int i = 0; i < n; ++i) y[i] = vf_real("y");
    for (int i = 0; i < n; ++i) { double r = 0; for (int j = 0; j < n; ++j) r += g[i] * g[j] * y[j]; s.b[i] = r; }
  } else {
    s.rhs();
  }
  const auto x = SolveLDLT(s.A, s.b);
  if (x) s.solves(*x, consistent ? "the solution of a consistent singular system solves it" : "the solution of an inconsistent singular system solves it");
}
// VF: h_definite cases=6
extern "C" void h_definite() {
  switch (vf_case()) {
    case 0: definite<Sys<1, false>>(); break;
    case 1: definite<Sys<2, false>>(); break;
    case 2: definite<Sys<3, false>>(); break;
    case 3: definite<Sys<2, true>>(); break;
    case 4: definite<Sys<1, false, float>>(); break;
    default: definite<Sys<2, true, float>>(); break;
  }
  vf_reach("definite");
}
// VF: h_indefinite cases=6
extern "C" void h_indefinite() {
  switch (vf_case()) {
    case 0: indefinite<Sys<1, false>>(1); break;
    case 1: indefinite<Sys<2, false>>(2); break;
    case 2: indefinite<Sys<2, true>>(2); break;
    case 3: indefinite3<Sys<3, false>>(0, 1); break;
    case 4: indefinite3<Sys<3, false>>(0, 2); break;
    default: indefinite3<Sys<3, false>>(1, 2); break;
  }
  vf_reach("indefinite");
}
// VF: h_consistent cases=4
extern "C" void h_consistent() {
  switch (vf_case()) {
    case 0: singular<Sys<2, false>>(2, true); break;
    case 1: singular<Sys<2, true>>(2, true); break;
    case 2: singular<Sys<3, false>>(3, true); break;
    default: singular<Sys<1, false>>(1, true); break;
  }
  vf_reach("consistent");
}
// VF: h_inconsistent cases=2
extern "C" void h_inconsistent() {
  if (vf_case()) singular<Sys<3, false>>(3, false); else singular<Sys<2, false>>(2, false);
  vf_reach("inconsistent");
}

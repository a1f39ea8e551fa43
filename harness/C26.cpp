// BOUND: residual blocks up to 4x3 and of up to 10 entries, residual counts 0..3, 5, 11, 40 and 300 per term, up to 6 accumulated terms; any values and inlier ratios in [0,1]
// BOUND: single precision counts as exact: inliers lost to its rounding are not seen
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <limits>
using namespace tinyopt;

template <typename M> static void from(M r) {
  vf_fill(r, "r");
  double sum = 0;
  for (int j = 0; j < r.cols(); ++j) for (int i = 0; i < r.rows(); ++i) sum += double(r(i, j)) * double(r(i, j));
  const int n = int(r.rows() * r.cols());
  const Cost c(r);
  vf_eq(c.cost, sum, "cost of a residual block is its squared norm");
  vf_assert(c.num_resisuals == n, "number of residuals of a block");
  vf_assert(c.NumInliers() == n, "all residuals of a block are inliers");
  vf_assert(c.NumOutliers() == 0, "no outliers in a plain block");
  Cost d(vf_real("old"), 7);
  d = r;
  vf_eq(d.cost, sum, "assigned cost is the squared norm");
  vf_assert(d.num_resisuals == n, "assigned number of residuals");
  vf_assert(d.NumInliers() == n, "assigned number of inliers");
  vf_assert(c.isValid() == (n > 0), "validity of a block");
}
// VF: h_block cases=13
extern "C" void h_block() {
  switch (vf_case()) {
    case 0: from(Vec1()); break;
    case 1: from(Vec3()); break;
    case 2: from(VecX(2)); break;
    case 3: from(Mat2()); break;
    case 4: from(MatX(2, 2)); break;
    case 5: from(Matrix<double, 1, 3>()); break;
    case 6: from(Vec2f()); break;
    case 7: from(VecX(0)); break;
    case 8: from(VecX(10)); break;
    case 9: from(MatX(4, 3)); break;
    case 10: from(Matrix<double, 3, 4>()); break;
    case 11: from(Matrix<float, 2, 3>()); break;
    default: from(Matrix<double, 1, Dynamic>(7)); break;
  }
  vf_reach("block");
}
// Sums of costs.
// VF: h_sum cases=16
extern "C" void h_sum() {
  const int n1 = vf_case() / 4, n2 = vf_case() % 4;
  const double c1 = vf_real("c1"), c2 = vf_real("c2");
  const float q1 = vf_range("q1", 0, 1), q2 = vf_range("q2", 0, 1);
  Cost a(c1, n1, q1);
  const Cost b(c2, n2, q2);
  const int i1 = a.NumInliers(), i2 = b.NumInliers();
  vf_assert(i1 >= 0 && i1 <= n1, "inliers are some of the residuals");
  vf_assert(i1 - 1 < n1 * q1 && n1 * q1 < i1 + 1, "number of inliers is about residuals times ratio");
  a += b;
  vf_eq(a.cost, c1 + c2, "cost of a sum");
  vf_assert(a.num_resisuals == n1 + n2, "residuals of a sum");
  vf_assert(a.NumInliers() == i1 + i2, "inliers of a sum");
  const int in = a.NumInliers();
  Vec2 r;
  vf_fill(r, "r");
  a += r;
  vf_eq(a.cost, c1 + c2 + r[0] * r[0] + r[1] * r[1], "cost after adding a block");
  vf_assert(a.num_resisuals == n1 + n2 + 2, "residuals after adding a block");
  vf_assert(a.NumInliers() == in + 2, "inliers after adding a block");
  a += 3.0 * r;
  vf_eq(a.cost, c1 + c2 + 10 * (r[0] * r[0] + r[1] * r[1]), "cost after adding a second block");
  vf_assert(a.num_resisuals == n1 + n2 + 4, "residuals after adding a second block");
  vf_assert(a.NumInliers() == in + 4, "inliers after adding a second block");
  vf_assert(a.NumInliers() + a.NumOutliers() == a.num_resisuals, "inliers and outliers after adding blocks");
  vf_eq(b.cost, c2, "the added cost is not changed");
  vf_assert(b.num_resisuals == n2, "the added cost is not changed");
  vf_reach("sum");
}
// Sums with many residuals.
// VF: h_many cases=4
extern "C" void h_many() {
  const int counts[] = {5, 11, 40, 300}, n1 = counts[vf_case()], n2 = counts[vf_pick("n2", 0, 3)], k = vf_pick("k", 0, 4), in = n1 * k / 4;
  const double c1 = vf_real("c1"), c2 = vf_real("c2");
  Cost a(0.0, 0), b(c2, n2);
  a += Cost(c1, 0);
  a.AddResiduals(n1, in);
  vf_eq(a.cost, c1, "adding many residuals keeps the value");
  vf_assert(a.num_resisuals == n1 && a.NumInliers() == in && a.NumOutliers() == n1 - in, "counts of many residuals");
  a += b;
  b += a;
  vf_eq(a.cost, c1 + c2, "cost of a sum with many residuals");
  vf_eq(b.cost, c1 + 2 * c2, "cost of a sum of sums");
  vf_assert(a.num_resisuals == n1 + n2 && a.NumInliers() == in + n2 && a.NumOutliers() == n1 - in, "counts of a sum with many residuals");
  vf_assert(b.num_resisuals == n1 + 2 * n2 && b.NumInliers() == in + 2 * n2 && b.NumOutliers() == n1 - in, "counts of a sum of sums");
  MatX m(4, 3);
  vf_fill(m, "m");
  double sum = c1 + c2;
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 4; ++i) sum += 2 * m(i, j) * m(i, j);
  a += m;
  a += m.transpose();
  a += m.block(0, 0, 0, 3);
  vf_eq(a.cost, sum, "cost after adding larger blocks");
  vf_assert(a.num_resisuals == n1 + n2 + 24 && a.NumInliers() == in + n2 + 24, "counts after adding larger blocks");
  vf_reach("many");
}
// Three terms starting from nothing, plain values count as one residual.
// VF: h_three cases=3
extern "C" void h_three() {
  Cost a;
  vf_assert(a.cost == 0 && a.num_resisuals == 0, "starts empty");
  vf_assert(!a.isValid(), "nothing added yet");
  const double c1 = vf_real("c1"), c2 = vf_real("c2");
  a += Cost(c1);
  vf_assert(a.num_resisuals == 1 && a.NumInliers() == 1, "a value is one residual");
  vf_eq(a.cost, c1, "value of a value");
  const float q = vf_range("q", 0, 1);
  const int n = 1 + vf_case();
  Cost b(c2, n, q);
  const int in = b.NumInliers();
  a += b;
  a.AddResiduals(2, 1);
  vf_eq(a.cost, c1 + c2, "adding residual counts keeps the value");
  vf_assert(a.num_resisuals == 3 + n, "residuals of three terms");
  vf_assert(a.NumInliers() == 2 + in, "inliers of three terms");
  Mat2 m;
  vf_fill(m, "m");
  Cost z;
  z += m;
  vf_eq(z.cost, m(0, 0) * m(0, 0) + m(0, 1) * m(0, 1) + m(1, 0) * m(1, 0) + m(1, 1) * m(1, 1), "matrix block");
  vf_assert(z.num_resisuals == 4 && z.NumInliers() == 4, "matrix block counts");
  vf_reach("three");
}
// VF: h_valid cases=3
extern "C" void h_valid() {
  const int n = vf_case() - 1;
  const double max = std::numeric_limits<double>::max();
  const double c = vf_real("c");
  Cost a(c, n);
  vf_assert(a.isValid() == (n > 0 && c != max), "valid exactly with residuals and a cost");
  Cost s(max, n);
  vf_assert(!s.isValid(), "the sentinel is never valid");
  vf_reach("valid");
}
// VF: h_compare
extern "C" void h_compare() {
  const double c1 = vf_real("c1"), c2 = vf_real("c2");
  const Cost a(c1, 3, 0.5f), b(c2, 1);
  vf_assert((a < b) == (c1 < c2), "less");
  vf_assert((a <= b) == (c1 <= c2), "less or equal");
  vf_assert((a < c2) == (c1 < c2), "less than a value");
  vf_assert((a <= c2) == (c1 <= c2), "less or equal to a value");
  const float f = vf_real("f");
  vf_assert((a < f) == (c1 < f), "less than a float");
  vf_assert((a <= f) == (c1 <= f), "less or equal to a float");
  vf_eq(double(a), c1, "conversion is the value");
  vf_assert((a > c2) == (c1 > c2), "greater than a value");
  vf_reach("compare");
}

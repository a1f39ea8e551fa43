// Parameters of many shapes: flattening, filling and the checks of their traits.
#pragma once
#include "vf.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/diff/auto_diff.h>
#include <array>
#include <utility>
#include <vector>
using namespace tinyopt;

// Flattening in storage order.
static void flat(double v, std::vector<double> &o) { o.push_back(v); }
template <typename D> static void flat(const Eigen::MatrixBase<D> &m, std::vector<double> &o) {
  for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) o.push_back(m(i, j));
}
template <typename T> static void flat(const std::vector<T> &v, std::vector<double> &o);
template <typename T, std::size_t N> static void flat(const std::array<T, N> &v, std::vector<double> &o);
template <typename A, typename B> static void flat(const std::pair<A, B> &v, std::vector<double> &o) { flat(v.first, o); flat(v.second, o); }
template <typename T> static void flat(const std::vector<T> &v, std::vector<double> &o) { for (auto &x : v) flat(x, o); }
template <typename T, std::size_t N> static void flat(const std::array<T, N> &v, std::vector<double> &o) { for (auto &x : v) flat(x, o); }

// User-defined parameters with a static size.
struct Pose {
  using Scalar = double;
  static constexpr Index Dims = 3;
  double x = 0, y = 0, a = 0;
  Index dims() const { return 3; }
  Pose &operator+=(const auto &d) { x += d[0]; y += d[1]; a += d[2]; return *this; }
};
static void flat(const Pose &p, std::vector<double> &o) { o.push_back(p.x); o.push_back(p.y); o.push_back(p.a); }

static void fill(double &v) { v = vf_real("x"); }
static void fill(float &v) { v = vf_real("x"); }
template <typename D> static void fill(Eigen::MatrixBase<D> &m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) m(i, j) = vf_real("x"); }
static void fill(Pose &p) { p.x = vf_real("x"); p.y = vf_real("x"); p.a = vf_real("x"); }
template <typename T> static void fill(std::vector<T> &v);
template <typename T, std::size_t N> static void fill(std::array<T, N> &v);
template <typename A, typename B> static void fill(std::pair<A, B> &v) { fill(v.first); fill(v.second); }
template <typename T> static void fill(std::vector<T> &v) { for (auto &x : v) fill(x); }
template <typename T, std::size_t N> static void fill(std::array<T, N> &v) { for (auto &x : v) fill(x); }

template <typename P> static void check(P p, int total) {
  using tr = traits::params_trait<P>;
  fill(p);
  std::vector<double> before, after;
  flat(p, before);
  vf_assert(int(before.size()) == total, "harness: number of components");
  vf_assert(tr::dims(p) == total, "number of dimensions");
  vf_assert(traits::DynDims(p) == total, "number of dimensions (DynDims)");
  vf_assert(tr::Dims == Dynamic || tr::Dims == total, "compile-time dimensions");
  VecX d(total);
  vf_fill(d, "d");
  tr::PlusEq(p, d);
  flat(p, after);
  vf_assert(after.size() == before.size(), "update keeps the layout");
  for (int k = 0; k < total; ++k) vf_eq(after[k], before[k] + d[k], "component k gets delta k");
  if constexpr (tr::Dims != Dynamic) {
    Vector<double, tr::Dims> e;
    vf_fill(e, "e");
    tr::PlusEq(p, e);
    std::vector<double> last;
    flat(p, last);
    for (int k = 0; k < total; ++k) vf_eq(last[k], after[k] + e[k], "component k gets delta k (static delta)");
    tr::PlusEq(p, -e);
    last.clear();
    flat(p, last);
    for (int k = 0; k < total; ++k) vf_eq(last[k], after[k], "undoing an update");
  }
}
template <typename P> static void casts(P p, int total) {
  using tr = traits::params_trait<P>;
  fill(p);
  std::vector<double> before, after;
  flat(p, before);
  const auto q = tr::template cast<float>(p);
  flat(q, after);
  vf_assert(int(after.size()) == total, "cast keeps the layout");
  for (int k = 0; k < total; ++k) vf_eq(after[k], before[k], "cast keeps every component");
  vf_assert(traits::params_trait<std::decay_t<decltype(q)>>::dims(q) == total, "cast keeps the dimensions");
}
template <typename T> static std::vector<std::vector<T>> jag(std::initializer_list<int> n) { std::vector<std::vector<T>> v; for (int i : n) v.emplace_back(i); return v; }
static std::vector<VecX> vecs(std::initializer_list<int> n) { std::vector<VecX> v; for (int i : n) v.emplace_back(i); return v; }


// BOUND: containers with up to 3 elements, nested up to depth 2, static and dynamic; matrices up to 2x3; column-major storage
#include "c25.h"

#define SHAPES(f) \
  switch (vf_case()) { \
    case 0: f(double(), 1); break; \
    case 1: f(Vec1(), 1); break; \
    case 2: f(Vec3(), 3); break; \
    case 3: f(VecX(3), 3); break; \
    case 4: f(Matrix<double, 2, 3>(), 6); break; \
    case 5: f(MatX(3, 2), 6); break; \
    case 6: f(std::vector<double>(3), 3); break; \
    case 7: f(std::vector<Vec2>(3), 6); break; \
    case 8: f(std::vector<Mat2>(2), 8); break; \
    case 9: f(vecs({2, 1, 3}), 6); break; \
    case 10: f(jag<double>({1, 3, 2}), 6); break; \
    case 11: f(jag<Vec2>({2, 1}), 6); break; \
    case 12: f(std::array<double, 3>(), 3); break; \
    case 13: f(std::array<Vec2, 2>(), 4); break; \
    case 14: f(std::array<VecX, 3>{VecX(1), VecX(3), VecX(2)}, 6); break; \
    case 15: f(std::array<std::vector<double>, 2>{std::vector<double>(2), std::vector<double>(1)}, 3); break; \
    case 16: f(std::pair<VecX, VecX>(VecX(2), VecX(3)), 5); break; \
    case 17: f(std::array<std::array<Vec2, 2>, 2>(), 8); break; \
    case 18: f(std::vector<double>(0), 0); break; \
    default: f(std::pair<Vec2, Vec2>(), 4); break; \
  }
// VF: h_update cases=20
extern "C" void h_update() {
  SHAPES(check)
  vf_reach("update");
}
// VF: h_cast cases=20
extern "C" void h_cast() {
  SHAPES(casts)
  vf_reach("cast");
}
// VF: h_user cases=4
extern "C" void h_user() {
  switch (vf_case()) {
    case 0: check(Pose(), 3); break;
    case 1: check(std::vector<Pose>(2), 6); break;
    case 2: check(std::array<Pose, 2>(), 6); break;
    default: check(std::pair<Pose, Pose>(), 6); break;
  }
  vf_reach("user");
}
// Casting to differentiation numbers keeps the values and starts without derivatives.
// VF: h_jet
extern "C" void h_jet() {
  using J = diff::Jet<double, 2>;
  std::pair<Vec2, std::array<double, 2>> p;
  fill(p);
  const auto q = traits::params_trait<decltype(p)>::cast<J>(p);
  for (int i = 0; i < 2; ++i) {
    vf_eq(q.first[i].a, p.first[i], "cast to differentiation numbers");
    vf_eq(q.second[i].a, p.second[i], "cast to differentiation numbers");
    for (int k = 0; k < 2; ++k) { vf_eq(q.first[i].v[k], 0, "no derivative after a cast"); vf_eq(q.second[i].v[k], 0, "no derivative after a cast"); }
  }
  const float s = vf_real("s");
  vf_eq(traits::params_trait<float>::cast<J>(s).a, s, "cast to differentiation numbers");
  float t = s;
  traits::params_trait<float>::PlusEq(t, 2.0f);
  vf_eq(t, s + 2, "scalar update by a scalar");
  vf_reach("jet");
}

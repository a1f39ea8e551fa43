// BOUND: pairs of different types, nested up to depth 2
#include "c25.h"

#define SHAPES(f) \
  switch (vf_case()) { \
    case 0: f(std::pair<double, Vec2>(), 3); break; \
    case 1: f(std::pair<Vec2, Vec3>(), 5); break; \
    case 2: f(std::pair<Vec2, double>(), 3); break; \
    case 3: f(std::pair<Vec2, VecX>(Vec2(), VecX(2)), 4); break; \
    case 4: f(std::pair<VecX, Vec2>(VecX(1), Vec2()), 3); break; \
    case 5: f(std::pair<std::array<double, 2>, std::vector<Vec2>>(std::array<double, 2>(), std::vector<Vec2>(2)), 6); break; \
    case 6: f(std::vector<std::pair<Vec2, double>>(2), 6); break; \
    case 7: f(std::pair<Mat2, std::array<double, 2>>(), 6); break; \
    case 8: f(std::pair<double, VecX>(0.0, VecX(2)), 3); break; \
    case 9: f(std::pair<VecX, double>(VecX(2), 0.0), 3); break; \
    case 10: f(std::pair<std::vector<double>, VecX>(std::vector<double>(1), VecX(1)), 2); break; \
    case 11: f(std::pair<VecX, std::vector<Vec2>>(VecX(0), std::vector<Vec2>(2)), 4); break; \
    case 12: f(std::vector<std::pair<VecX, double>>{{VecX(2), 0.0}, {VecX(1), 0.0}}, 5); break; \
    case 13: f(std::pair<std::pair<double, Vec2>, std::pair<VecX, float>>({0.0, Vec2()}, {VecX(2), 0.0f}), 6); break; \
    case 14: f(std::array<std::pair<double, double>, 3>(), 6); break; \
    default: f(std::pair<Vec1, MatX>(Vec1(), MatX(2, 1)), 3); break; \
  }
// VF: h_update_pair cases=16
extern "C" void h_update_pair() {
  SHAPES(check)
  vf_reach("update");
}
// VF: h_cast_pair cases=16
extern "C" void h_cast_pair() {
  SHAPES(casts)
  vf_reach("cast");
}

// BOUND: containers with up to 9 elements and nested up to depth 3, matrices up to 3x4 and rows, elements of one dimension
#include "c25.h"
static std::vector<std::vector<std::vector<double>>> deep() { return {jag<double>({1, 2}), jag<double>({}), jag<double>({3, 0, 2})}; }
using Row = Matrix<double, 1, Dynamic>;

#define SHAPES(f) \
  switch (vf_case()) { \
    case 0: f(VecX(12), 12); break; \
    case 1: f(Matrix<double, 3, 4>(), 12); break; \
    case 2: f(MatX(4, 3), 12); break; \
    case 3: f(std::vector<double>(9), 9); break; \
    case 4: f(std::vector<Vec3>(5), 15); break; \
    case 5: f(vecs({4, 1, 5, 0, 3}), 13); break; \
    case 6: f(std::array<double, 7>(), 7); break; \
    case 7: f(std::array<VecX, 4>{VecX(3), VecX(1), VecX(4), VecX(2)}, 10); break; \
    case 8: f(std::vector<Vec1>(4), 4); break; \
    case 9: f(std::array<Vec1, 3>(), 3); break; \
    case 10: f(std::vector<std::array<double, 1>>(3), 3); break; \
    case 11: f(std::pair<Matrix<double, 2, 3>, MatX>(Matrix<double, 2, 3>(), MatX(3, 2)), 12); break; \
    case 12: f(deep(), 8); break; \
    case 13: f(Matrix<double, 1, 4>(), 4); break; \
    case 14: f(Row(5), 5); break; \
    case 15: f(std::vector<Row>{Row(2), Row(3)}, 5); break; \
    case 16: f(std::vector<MatX>{MatX(2, 2), MatX(1, 3), MatX(2, 3)}, 13); break; \
    case 17: f(std::vector<std::pair<Vec2, VecX>>{{Vec2(), VecX(1)}, {Vec2(), VecX(3)}, {Vec2(), VecX(2)}}, 12); break; \
    case 18: f(std::pair<std::pair<VecX, Vec3>, std::pair<double, std::array<Vec2, 2>>>({VecX(2), Vec3()}, {0.0, std::array<Vec2, 2>()}), 10); break; \
    default: f(std::array<std::vector<Vec2>, 3>{std::vector<Vec2>(1), std::vector<Vec2>(0), std::vector<Vec2>(3)}, 8); break; \
  }
// VF: h_update_large cases=20
extern "C" void h_update_large() {
  SHAPES(check)
  vf_reach("update");
}
// VF: h_cast_large cases=20
extern "C" void h_cast_large() {
  SHAPES(casts)
  vf_reach("cast");
}

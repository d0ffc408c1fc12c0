from mkseed import make
BC = "trajectory_tracker/include/trajectory_tracker/basic_control.h"
FI = "trajectory_tracker/include/trajectory_tracker/filter.h"
EL = "trajectory_tracker/include/trajectory_tracker/eigen_line.h"
CV = "planner_cspace/include/planner_cspace/cyclic_vec.h"
KF = "track_odometry/include/track_odometry/kalman_filter1.h"
J2 = "planner_cspace/src/grid_astar_model_2dof_joints.cpp"
SH = open("/verif/tools/mkseed.py").read().split('STD = """')[1].split('"""')[0].replace("-Iplanner_cspace/include", "-I. -Iplanner_cspace/include")
H2 = '''#include <cmath>
#include <cstdio>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <unordered_map>
#include <utility>
#include <vector>
#include "planner_cspace/src/grid_astar_model_2dof_joints.cpp"
using namespace planner_cspace;
typedef planner_2dof_serial_joints::GridAstarModel2DoFSerialJoint Model;
typedef Model::Vec Vec;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
static std::vector<Model::VecWithCost> none;
'''
make("P05-start", "P05", [(J2, "  for (int i = 0; i < dist; i++)\n  {\n    pos[0] = std::lround(v[0]);\n", "  for (int i = 0; i < dist; i++)\n  {\n    if (i == 0 && dist > 1)\n    {\n      v[0] += dp[0];\n      v[1] += dp[1];\n      continue;\n    }\n    pos[0] = std::lround(v[0]);\n")],
     "a move of at least two cells that leaves an obstacle cell",
     "the cell the move leaves is no longer checked for moves longer than one cell", H2 + '''
int main()
{
  BlockMemGridmap<char, 2, 0, 0x20> cm;
  cm.reset(Vec(32, 32));
  cm.clear(0);
  cm[Vec(3, 4)] = 100;
  planner_2dof_serial_joints::CostCoeff cc;
  cc.weight_cost_ = 1;
  cc.expand_ = 0;
  Model m(Model::Vecf(1.0f, 1.0f), 16, cm, cc, 4);
  CHECK(m.cost(Vec(3, 4), Vec(6, 4), none, Vec(6, 4)) < 0);
  CHECK(m.cost(Vec(3, 4), Vec(4, 4), none, Vec(4, 4)) < 0);
  CHECK(m.cost(Vec(4, 4), Vec(7, 4), none, Vec(7, 4)) >= 0);
  return 0;
}
''', sh=SH)
make("P05-turn", "P05", [(J2, "  v[0] = cur[0];\n  v[1] = cur[1];\n  dp[0] = static_cast<float>(d[0]) / dist;\n  dp[1] = static_cast<float>(d[1]) / dist;\n", "  v[0] = cur[0];\n  v[1] = cur[1];\n  dp[0] = static_cast<float>(next[0] - cur[0]) / dist;\n  dp[1] = static_cast<float>(d[1]) / dist;\n")],
     "a move across the wrap-around of the first joint",
     "the samples of a move that crosses zero degrees are taken the long way round, so obstacles on the short way are not seen", H2 + '''
int main()
{
  BlockMemGridmap<char, 2, 0, 0x20> cm;
  cm.reset(Vec(32, 32));
  cm.clear(0);
  cm[Vec(15, 5)] = 100;
  planner_2dof_serial_joints::CostCoeff cc;
  cc.weight_cost_ = 1;
  cc.expand_ = 0;
  Model m(Model::Vecf(1.0f, 1.0f), 16, cm, cc, 4);
  CHECK(m.cost(Vec(14, 5), Vec(2, 5), none, Vec(2, 5)) < 0);   // 14 -> 15 -> 0 -> 1 -> 2
  CHECK(m.cost(Vec(4, 5), Vec(7, 5), none, Vec(7, 5)) >= 0);
  return 0;
}
''', sh=SH)
make("P05-range", "P05", [(J2, "    for (p[1] = -range; p[1] <= range; p[1]++)\n", "    for (p[1] = -range - (p[0] & 1); p[1] <= range; p[1]++)\n")],
     "an odd displacement of the first joint",
     "for odd displacements of the first joint the move set contains a move one cell beyond the range", H2 + '''
int main()
{
  BlockMemGridmap<char, 2, 0, 0x20> cm;
  cm.reset(Vec(32, 32));
  cm.clear(0);
  planner_2dof_serial_joints::CostCoeff cc;
  cc.weight_cost_ = 1;
  cc.expand_ = 0;
  Model m(Model::Vecf(1.0f, 1.0f), 16, cm, cc, 3);
  for (auto& v : m.searchGrids(Vec(), none, Vec()))
    CHECK(-3 <= v[0] && v[0] <= 3 && -3 <= v[1] && v[1] <= 3);
  return 0;
}
''', sh=SH)
B = '''#include <cassert>
#include <cmath>
#include <cstdio>
#include <limits>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/filter.h>
using namespace trajectory_tracker;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
'''
make("P11-lower", "P11", [(BC, "    v = clip(v, vel);\n\n    if (v", "    if (v"), (BC, "      v = val_prev_ - dt * acc;\n\n", "      v = val_prev_ - dt * acc;\n    v = clip(v, vel);\n\n")],
     "the speed limit is lowered while the robot moves faster than the new limit",
     "the output jumps to the new speed limit regardless of the acceleration limit", B + '''
int main()
{
  VelAccLimitter l;
  for (int i = 0; i < 100; i++)
    l.set(1.0, 1.0, 1.0, 0.1);
  const float before = l.get();
  const float after = l.set(1.0, 0.2, 1.0, 0.1);
  CHECK(std::fabs(before - after) <= 0.1 + 1e-5);
  for (int i = 0; i < 100; i++)
    l.set(1.0, 0.2, 1.0, 0.1);
  CHECK(std::fabs(l.get()) <= 0.2 + 1e-5);
  return 0;
}
''')
make("P11-state", "P11", [(BC, "    if (!std::isfinite(v))\n      v = 0;\n", "    if (!std::isfinite(v))\n      return 0;\n")],
     "an undefined request followed by an ordinary one",
     "after an undefined request the output is zero but the state is not, so the next output jumps", B + '''
int main()
{
  VelAccLimitter l;
  for (int i = 0; i < 100; i++)
    l.set(1.0, 1.0, 1.0, 0.1);
  const float z = l.set(std::numeric_limits<float>::quiet_NaN(), 1.0, 1.0, 0.1);
  CHECK(l.get() == z);
  const float a = l.set(1.0, 1.0, 1.0, 0.1);
  CHECK(std::fabs(a - z) <= 0.1 + 1e-5);
  return 0;
}
''')
make("P12-turns", "P12", [(BC, "  while (ang > M_PI)\n    ang -= 2.0 * M_PI;\n", "  if (ang > M_PI)\n    ang -= 2.0 * M_PI;\n")],
     "an angle of more than one and a half turns", "angles above one and a half turns are reduced by one turn only", B + '''
int main()
{
  for (float a = -40; a < 40; a += 0.37)
  {
    const float n = angleNormalized(a);
    CHECK(std::fabs(n) <= M_PI + 1e-4);
    CHECK(std::fabs(std::remainder(a - n, 2 * M_PI)) < 1e-4);
  }
  return 0;
}
''')
make("P12-brake", "P12", [(BC, "  return -std::copysign(1.0, angle) * std::sqrt(std::abs(2 * angle * acc));\n", "  return -std::copysign(1.0, angle * acc) * std::sqrt(std::abs(2 * angle * acc));\n")],
     "a deceleration given as a negative number", "the braking speed has the sign of the deceleration, so it runs away from the target when the deceleration is negative", B + '''
int main()
{
  for (float acc = -2; acc <= 2; acc += 0.25)
    for (float a = -3; a < 3; a += 0.3)
    {
      const float w = timeOptimalControl(a, acc);
      CHECK(w * a <= 0);
      CHECK(std::fabs(w * w - std::fabs(2 * a * acc)) < 1e-3);
    }
  return 0;
}
''')
make("P13-reset", "P13", [(FI, "  void set(const float& out0)\n  {\n    x_ = (1 - k_[2]) * out0 / k_[3];\n    out_ = out0;\n", "  void set(const float& out0)\n  {\n    x_ += (1 - k_[2]) * (out0 - out_) / k_[3];\n    out_ = out0;\n")],
     "a reset while the filter is in motion", "a reset keeps the motion of the filter instead of bringing it to rest at the given value", B + '''
int main()
{
  for (float tc = 1; tc < 50; tc *= 3)
  {
    Filter f(Filter::FILTER_LPF, tc, 0.0);
    f.in(5.0);
    f.set(1.0);
    for (int i = 0; i < 20; i++)
      CHECK(std::fabs(f.in(1.0) - 1.0) < 1e-3);
  }
  return 0;
}
''')
make("P13-turn", "P13", [(FI, "      in = out_ + remainder(in - out_, M_PI * 2.0);\n", "      if (std::abs(in - out_) > M_PI)\n        in -= std::copysign(M_PI * 2.0, in - out_);\n")],
     "an input more than one and a half turns from the output", "only one turn is removed from the input of an angular filter", B + '''
int main()
{
  for (int n = -3; n <= 3; n++)
  {
    Filter f(Filter::FILTER_LPF, 5, 0.25, true), g(Filter::FILTER_LPF, 5, 0.25, true);
    for (int i = 0; i < 10; i++)
      CHECK(std::fabs(f.in(1.0 + n * 2 * M_PI) - g.in(1.0)) < 1e-3);
  }
  return 0;
}
''')
G = '''#include <cmath>
#include <cstdio>
#include <memory>
#include <planner_cspace/cyclic_vec.h>
#include <trajectory_tracker/eigen_line.h>
using namespace trajectory_tracker;
typedef Eigen::Vector2d V;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
'''
make("P14-end", "P14", [(EL, "  if ((a - b).dot(c - b) <= 0)\n", "  if ((b - a).dot(c - a) >= (b - a).norm() * (c - a).norm())\n")],
     "a point beyond the end of the segment but not exactly in line with it", "beyond the end of a segment the distance is measured to the prolonged line", G + '''
int main()
{
  CHECK(std::fabs(lineStripDistance(V(0, 0), V(1, 0), V(3, 0)) - 2) < 1e-5);
  CHECK(std::fabs(lineStripDistance(V(0, 0), V(1, 0), V(4, 4)) - 5) < 1e-5);
  CHECK(std::fabs(lineStripDistance(V(0, 0), V(1, 0), V(-3, 4)) - 5) < 1e-5);
  CHECK(std::fabs(lineStripDistance(V(0, 0), V(1, 0), V(0.5, 4)) - 4) < 1e-5);
  return 0;
}
''')
make("P14-grid", "P14", [(CV, "    const auto to_b = (*this) - b;\n    if ((a - b).dot2d(to_b) <= 0)\n", "    const auto to_b = (*this) - b;\n    if (to_a.sqlen() >= (b - a).sqlen() + to_b.len())\n")],
     "a point just beyond the end of a segment", "just beyond its end a segment is still taken as prolonged", G + '''
int main()
{
  typedef planner_cspace::CyclicVecInt<3, 2> C;
  for (int x = -6; x < 12; x++)
    for (int y = -5; y < 6; y++)
    {
      const float dx = x < 0 ? -x : x > 5 ? x - 5 : 0;
      const float e = std::hypot(dx, (float)y);
      CHECK(std::fabs(C(x, y, 3).distLinestrip2d(C(0, 0, 0), C(5, 0, 1)) - e) < 1e-4);
    }
  return 0;
}
''')
make("P18-both", "P18", [(KF, "    if (std::isinf(sigma_in))\n      return;\n    if (std::isinf(sigma_))\n    {\n", "    if (std::isinf(sigma_in) && !std::isinf(sigma_))\n      return;\n    if (std::isinf(sigma_))\n    {\n")],
     "a measurement without information while the state is unknown as well", "an infinitely uncertain measurement overwrites the estimate when the state is infinitely uncertain", '''#include <cmath>
#include <cstdio>
#include <track_odometry/kalman_filter1.h>
int main()
{
  const double inf = std::numeric_limits<double>::infinity();
  track_odometry::KalmanFilter1 f(0.5, inf);
  f.measure(3.0, inf);
  if (f.x_ != 0.5 || !std::isinf(f.sigma_)) { printf("estimate %f\\n", f.x_); return 1; }
  f.measure(3.0, 0.1);
  return f.x_ == 3.0 ? 0 : 1;
}
''')
make("P18-inf", "P18", [(KF, "      if (std::isinf(x_in))\n        x_ = 0;\n      else\n        x_ = x_in;\n", "      x_ = x_in;\n")],
     "an infinite measurement value while the state is unknown", "an infinite measurement is adopted as the estimate, which then never becomes finite again", '''#include <cmath>
#include <cstdio>
#include <track_odometry/kalman_filter1.h>
int main()
{
  const double inf = std::numeric_limits<double>::infinity();
  track_odometry::KalmanFilter1 f;
  f.measure(inf, 0.1);
  f.predict(0.1, 0.1);
  f.measure(3.0, 0.1);
  if (!std::isfinite(f.x_)) { printf("estimate %f\\n", f.x_); return 1; }
  return 0;
}
''')

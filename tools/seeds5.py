from mkseed import make, stubs, MW
RC = "planner_cspace/src/rotation_cache.cpp"
CV = "planner_cspace/include/planner_cspace/cyclic_vec.h"
C = '#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
ROT = '''#include <cmath>
#include <cstdio>
#include <list>
#include <memory>
#include <unordered_map>
#include <utility>
#include <vector>
#include <planner_cspace/src/rotation_cache.cpp>
using namespace planner_cspace;
''' + C + '''
int main()
{
  for (int n = 3; n <= 24; n++)
  {
    planner_3d::RotationCache c;
    const float a = 2 * M_PI / n, l = 0.1;
    const int range = 3;
    c.reset(l, a, range);
    for (int s = 0; s < n; s++)
      for (int x = 0; x <= 2 * range; x++)
        for (int y = 0; y <= 2 * range; y++)
          for (int t = 0; t < n; t++)
          {
            const auto m = c.getMotion(s, CyclicVecInt<3, 2>(x, y, t));
            const double g = -s * a, u = (x - range) * l, v = (y - range) * l;
            CHECK(std::abs(m[0] - (std::cos(g) * u - std::sin(g) * v)) < 1e-3);
            CHECK(std::abs(m[1] - (std::sin(g) * u + std::cos(g) * v)) < 1e-3);
            const double d = (m[2] - (t - s) * a) / (2 * M_PI);
            CHECK(std::abs(d - std::round(d)) < 1e-3);
            CHECK(m[2] < M_PI + 1e-3 && m[2] > -M_PI - 1e-3);
          }
  }
  return 0;
}
'''
RSH = MW.replace("-I. ", "-I. -Iplanner_cspace/src ")
make("P10-row", "P10", [(RC, "      for (d[1] = 0; d[1] <= range * 2; d[1]++)", "      for (d[1] = 0; d[1] < range * 2; d[1]++)")],
     "a move to the outermost row of the window", "the last row of the table is never filled in", ROT, sh=RSH)
make("P10-turn", "P10", [(CV, "  else if (val < -M_PI)\n    val += 2 * M_PI;", "  else if (val < -2 * M_PI)\n    val += 2 * M_PI;")],
     "a move whose turn seen from the start frame is between minus one and minus half a turn", "turns below minus half a turn are not brought back", ROT, sh=RSH)

CS = "costmap_cspace/include/costmap_cspace/cspace3_cache.h"
BA = "costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h"
T = '''#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#include <ros/ros.h>
#include <costmap_cspace/cspace3_cache.h>
#include <costmap_cspace/costmap_3d_layer/base.h>
''' + C
make("P19-stride", "P19", [(CS, "    stride_[2] = size_[0] * size_[1];", "    stride_[2] = size_[0] * size_[0];")],
     "a template that is not square", "the distance between two orientations is computed from the width alone", T + '''
int main()
{
  costmap_cspace::CSpace3Cache c;
  c.reset(1, 3, 2);
  for (int y = -3; y <= 3; y++)
    for (int x = -1; x <= 1; x++)
      c.e(x, y, 0) = 1;
  for (int y = -3; y <= 3; y++)
    for (int x = -1; x <= 1; x++)
      CHECK(c.e(x, y, 1) == 0);
  return 0;
}
''', sh=MW)
make("P19-clear", "P19", [(CS, "    memset(c_.get(), 0, array_size_ * sizeof(char));", "    memset(c_.get(), 0, size_[0] * size_[1] * sizeof(char));")],
     "a template of more than one orientation", "only the first orientation of a fresh template is cleared", T + '''
int main()
{
  for (int k = 0; k < 40; k++)
  {
    char* dirty = new char[63];
    memset(dirty, 7, 63);
    asm volatile("" : : "r"(dirty) : "memory");
    delete[] dirty;
    costmap_cspace::CSpace3Cache c;
    c.reset(1, 1, 7);
    for (int a = 0; a < 7; a++)
      for (int y = -1; y <= 1; y++)
        for (int x = -1; x <= 1; x++)
          CHECK(c.e(x, y, a) == 0);
  }
  return 0;
}
''', sh=MW.replace("-fsanitize=address,undefined -fno-sanitize-recover=all", "-fsanitize=undefined -fno-sanitize-recover=all"))
make("P19-msg", "P19", [(BA, "    return (yaw * info.height + y) * info.width + x;", "    return (yaw * info.width + y) * info.width + x;")],
     "a message that is not square", "cells of different orientations of a message share an element", T + '''
int main()
{
  costmap_cspace::CSpace3DMsg m;
  m.info.width = 2, m.info.height = 5, m.info.angle = 2;
  m.data.resize(20);
  for (int y = 0; y < 5; y++)
    for (int x = 0; x < 2; x++)
      m.getCost(x, y, 0) = 1;
  for (int y = 0; y < 5; y++)
    for (int x = 0; x < 2; x++)
      CHECK(m.getCost(x, y, 1) == 0);
  return 0;
}
''', sh=MW)

PO = "costmap_cspace/include/costmap_cspace/polygon.h"
P = '''#include <cstdio>
#include <map>
#include <memory>
#include <vector>
#include <ros/ros.h>
#include <geometry_msgs/PolygonStamped.h>
#include <costmap_cspace/polygon.h>
using namespace costmap_cspace;
''' + C + '''
static void add(Polygon& p, float x, float y)
{
  Vec a;
  a[0] = x, a[1] = y;
  p.v.push_back(a);
}
'''
make("P21-vertex", "P21", [(PO, "          (v2[1] <= a[1] && a[1] < v1[1]))", "          (v2[1] < a[1] && a[1] <= v1[1]))")],
     "a point level with a vertex of the outline", "a falling edge counts its upper end instead of its lower end", P + '''
int main()
{
  Polygon p;
  add(p, -1, 0), add(p, 0, -1), add(p, 1, 0), add(p, 0, 1), add(p, -1, 0);
  Vec a;
  a[0] = 0, a[1] = 0;
  CHECK(p.inside(a));
  a[0] = -2;
  CHECK(!p.inside(a));
  a[0] = 2;
  CHECK(!p.inside(a));
  // the lowest vertex of a downward tooth between two peaks
  Polygon q;
  add(q, -2, -2), add(q, 2, -2), add(q, 2, 1), add(q, 1, 0), add(q, 0, 1), add(q, -2, 1), add(q, -2, -2);
  a[0] = -1, a[1] = 0;
  CHECK(q.inside(a));
  a[1] = -0.5;
  CHECK(q.inside(a));
  return 0;
}
''', sh=MW)
make("P21-move", "P21", [(PO, "      auto tmp = p;", "      auto& tmp = p;")],
     "a footprint turned and moved", "the second coordinate is computed from the already moved first one", P + '''
int main()
{
  Polygon p;
  add(p, 1, 0), add(p, 0, 1), add(p, -1, -1), add(p, 1, 0);
  const float d = p.v[0].dist(p.v[1]);
  p.move(2, 3, 1);
  CHECK(std::abs(p.v[0].dist(p.v[1]) - d) < 1e-4);
  return 0;
}
''', sh=MW)
make("P21-strip", "P21", [(PO, "    if ((a - b).dot((*this) - b) <= 0)\n      return this->dist(b);", "    if ((a - b).dot((*this) - a) >= 0)\n      return this->dist(b);")],
     "a point beyond the end of an edge", "beyond the end of an edge the perpendicular is taken for the distance", P + '''
int main()
{
  Vec a, b, c;
  a[0] = 0, a[1] = 0, b[0] = 1, b[1] = 0, c[0] = 3, c[1] = 0.5;
  CHECK(std::abs(c.dist_linestrip(a, b) - std::hypot(2, 0.5)) < 1e-4);
  c[0] = 0.5;
  CHECK(std::abs(c.dist_linestrip(a, b) - 0.5) < 1e-4);
  return 0;
}
''', sh=MW)

JI = "joystick_interrupt/src/joystick_interrupt.cpp"
J = '''#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <ros/ros.h>
static long long clk;
ros::Time ros::Time::now() { return ofNs(clk); }
static bool sim;
bool ros::Time::isSimTime() { return sim; }
#define main node_main
#include <joystick_interrupt/src/joystick_interrupt.cpp>
#undef main
''' + C + '''
typedef ros::Sink<geometry_msgs::Twist> Out;
static void twist(JoystickInterrupt& j, double x)
{
  geometry_msgs::Twist::Ptr m(new geometry_msgs::Twist);
  m->linear.x = x;
  j.cbTwist(m);
}
static void joy(JoystickInterrupt& j, int button, float x)
{
  sensor_msgs::Joy::Ptr m(new sensor_msgs::Joy);
  m->axes.assign(4, 0);
  m->axes[1] = x;
  m->buttons.assign(8, 0);
  m->buttons[6] = button;
  j.cbJoy(m);
}
'''
make("P22-release", "P22", [(JI, "      if (last_joy_msg_ != ros::Time(0))\n", "      if (ros::Time::now() - last_joy_msg_ < ros::Duration(timeout_))\n")],
     "the operator's input stops for longer than the timeout, then the button is reported released", "the autonomous command is restored on release only if the operator's input had not timed out", J + '''
int main()
{
  sim = false;
  clk = 100000000000;
  JoystickInterrupt j;
  twist(j, 0.25);
  joy(j, 1, 1);
  CHECK(Out::last.linear.x > 0.4);
  clk += 2000000000;
  joy(j, 0, 1);
  CHECK(std::abs(Out::last.linear.x - 0.25) < 1e-6);
  return 0;
}
''', sh=MW)
make("P22-stale", "P22", [(JI, "    last_input_twist_ = *msg;\n    std_msgs::Bool status;\n", "    std_msgs::Bool status;\n"), (JI, "      pub_twist_.publish(last_input_twist_);\n      status.data = true;", "      last_input_twist_ = *msg;\n      pub_twist_.publish(last_input_twist_);\n      status.data = true;")],
     "the autonomous command changes while the operator is engaged, then the operator lets go", "commands that arrive during the override are not remembered", J + '''
int main()
{
  sim = false;
  clk = 100000000000;
  JoystickInterrupt j;
  twist(j, 0.25);
  joy(j, 1, 1);
  twist(j, 0);
  clk += 100000000;
  joy(j, 0, 0);
  CHECK(Out::last.linear.x == 0);
  return 0;
}
''', sh=MW)

PA = "costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h"
A = '''#include <cstdio>
#include <list>
#include <map>
#include <memory>
#include <vector>
#include <ros/ros.h>
#include <costmap_cspace/pointcloud_accumulator.h>
struct Cloud { int label; };
typedef costmap_cspace::PointcloudAccumulator<Cloud> Acc;
''' + C + '''
int main()
{
  const long hold = 10;
  unsigned seed = 1;
  for (int run = 0; run < 200; run++)
  {
    Acc a(ros::Duration::ofNs(hold));
    long t[20], now = 0;
    for (int k = 0; k < 20; k++)
    {
      seed = seed * 1103515245 + 12345;
      now += (seed >> 16) % 8;
      t[k] = now;
      a.push(Acc::Points(Cloud{k}, ros::Time::ofNs(now)));
      int first = 0;
      while (t[first] + hold < now)
        first++;
      for (auto it = a.begin(); it != a.end(); ++it, ++first)
        CHECK(it->label == first);
      CHECK(first == k + 1);
    }
  }
  return 0;
}
'''
make("P23-edge", "P23", [(PA, "      if (it->stamp_ + time_to_hold_ < points.stamp_)", "      if (it->stamp_ + time_to_hold_ <= points.stamp_)")],
     "a cloud exactly as old as the hold time", "a cloud exactly at the hold time is dropped", A, sh=MW)
make("P23-newest", "P23", [(PA, "      if (it->stamp_ + time_to_hold_ < points.stamp_)", "      if (it->stamp_ + time_to_hold_ < points_.back().stamp_)")],
     "a gap between two clouds", "the age is measured against the previous cloud instead of the new one", A, sh=MW)
for i in ["P10-row", "P10-turn", "P19-stride", "P19-clear", "P19-msg", "P21-vertex", "P21-move", "P21-strip", "P22-release", "P22-stale", "P23-edge", "P23-newest"]:
    stubs(i)

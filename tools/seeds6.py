from mkseed import make, stubs, MW
SL = "safety_limiter/src/safety_limiter.cpp"
C = '#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SH = MW.replace("-lboost_chrono -lboost_system", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS -lboost_thread -lboost_chrono -lboost_system -lpthread").replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", "")
T = '''#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/bind.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <ros/ros.h>
static int64_t clockNs = 100000000000;
ros::Time ros::Time::now() { return ofNs(clockNs); }
bool ros::Time::isSimTime() { return false; }
#define main safety_limiter_main
#include <safety_limiter/src/safety_limiter.cpp>
#undef main
''' + C + '''
typedef safety_limiter::SafetyLimiterNode Node;
typedef geometry_msgs::Twist Twist;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
typedef ros::Sink<Twist> Out;
alignas(16) static unsigned char raw[sizeof(Node)];
// a configured node with a round footprint of radius 0.5 at the origin, with fresh data
static Node& node()
{
  memset(raw, 0, sizeof(raw));
  Node& n = *reinterpret_cast<Node*>(raw);
  new (&n.fixed_frame_id_) std::string("odom");
  new (&n.base_frame_id_) std::string("base_link");
  new (&n.tfbuf_) tf2_ros::Buffer();
  new (&n.cloud_accum_) Cloud::Ptr(new Cloud);
  new (&n.footprint_p) Node::polygon();
  new (&n.parameter_server_mutex_) boost::recursive_mutex();
  n.tfbuf_.can_ = true;
  n.tfbuf_.tf_.transform.rotation.w = 1;
  n.hz_ = 20;
  n.timeout_ = 0.8;
  n.disable_timeout_ = 0.1;
  n.vel_[0] = 2;
  n.vel_[1] = 3;
  n.acc_[0] = 1;
  n.acc_[1] = 2;
  n.max_values_[0] = 1;
  n.max_values_[1] = 2;
  n.tmax_ = 3;
  n.dt_ = 0.05;
  n.z_range_[0] = -1;
  n.z_range_[1] = 1;
  n.d_margin_ = 0.1;
  n.yaw_margin_ = 0.1;
  n.hold_ = ros::Duration(1.0);
  n.downsample_grid_ = 0.01;
  n.footprint_radius_ = 0.5;
  for (int i = 0; i <= 64; i++)
    n.footprint_p.v.push_back(Node::vec(0.5 * std::cos(2 * M_PI * (i % 64) / 64), 0.5 * std::sin(2 * M_PI * (i % 64) / 64)));
  n.has_cloud_ = n.has_twist_ = true;
  n.last_cloud_stamp_ = ros::Time::now();
  n.r_lim_ = 1.0;
  Out::n = 0;
  return n;
}
static Twist twist(double x, double y, double w)
{
  Twist t;
  t.linear.x = x;
  t.linear.y = y;
  t.angular.z = w;
  return t;
}
static void command(Node& n, double x, double y, double w) { n.cbTwist(Twist::Ptr(new Twist(twist(x, y, w)))); }
'''
M = []


def seed(id, prop, edits, needs, breaks, main):
    make(id, prop, edits, needs, breaks, T + "int main()\n{\n" + main + "  return 0;\n}\n", sh=SH)
    M.append(id)


seed("P16-reverse", "P16", [(SL, "                        std::max(out.angular.z, -max_values_[1]);", "                        std::min(out.angular.z, -max_values_[1]);")],
     "a right turn slower than the maximum", "a slow right turn is sped up to the maximum turn rate",
     '''  Node& n = node();
  command(n, 0.2, 0, -0.3);
  CHECK(std::abs(Out::last.angular.z) <= 0.3 + 1e-6);
  command(n, 0.2, 0, 0.3);
  CHECK(std::abs(Out::last.angular.z) <= 0.3 + 1e-6);
''')
seed("P16-sideways", "P16", [(SL, "      const double out_linear_vel = std::hypot(out.linear.x, out.linear.y);", "      const double out_linear_vel = std::max(std::abs(out.linear.x), std::abs(out.linear.y));")],
     "a diagonal command of an omnidirectional base close to the maximum", "each component is limited instead of the speed, a diagonal motion exceeds the maximum",
     '''  Node& n = node();
  command(n, 0.9, 0.9, 0);
  CHECK(std::hypot(Out::last.linear.x, Out::last.linear.y) <= 1 + 1e-6);
  command(n, 2.0, 0, 0);
  CHECK(std::hypot(Out::last.linear.x, Out::last.linear.y) <= 1 + 1e-6);
''')
seed("P16-ratio", "P16", [(SL, "    if (r_lim_current < r_lim_)\n      r_lim_ = r_lim_current;", "    r_lim_ = r_lim_current;")],
     "a prediction whose ratio is above one because the stopping distance is longer than needed", "a ratio above one is adopted and the command is amplified",
     '''  Node& n = node();
  n.r_lim_ = 0.5;
  n.twist_ = twist(0.1, 0, 0);
  n.tmax_ = 20;
  n.cloud_accum_->points.push_back(pcl::PointXYZ(1.8, 0, 0));
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  n.cbPredictTimer(ros::TimerEvent());
  CHECK(n.r_lim_ <= 0.5);
  CHECK(n.r_lim_ >= 0);
''')
seed("P17-watchdog", "P17", [(SL, "    watchdog_stop_ = true;\n    r_lim_ = 0;", "    watchdog_stop_ = !has_cloud_;\n    r_lim_ = 0;")],
     "the watchdog expires while clouds still arrive, and a command comes after the hold time", "the expired watchdog is not remembered while sensor data is fresh",
     '''  Node& n = node();
  n.cbWatchdogTimer(ros::TimerEvent());
  CHECK(Out::last.linear.x == 0);
  clockNs += 5000000000;
  command(n, 0.5, 0, 0);
  command(n, 0.5, 0, 0);
  CHECK(Out::last.linear.x == 0);
  n.cbWatchdogReset(std_msgs::Empty::Ptr(new std_msgs::Empty));
  command(n, 0.5, 0, 0);
  command(n, 0.5, 0, 0);
  CHECK(Out::last.linear.x != 0);
''')
seed("P17-timeout", "P17", [(SL, "      cloud_accum_.reset(new pcl::PointCloud<pcl::PointXYZ>);\n      has_cloud_ = false;\n      r_lim_ = 0;", "      cloud_accum_.reset(new pcl::PointCloud<pcl::PointXYZ>);\n      has_cloud_ = cloud_clear_;\n      r_lim_ = 0;")],
     "the cloud times out after a prediction has used it and a command comes later", "a timed-out cloud is kept as present when it has already been used, and the robot moves again",
     '''  Node& n = node();
  n.twist_ = twist(0.5, 0, 0);
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  n.cbPredictTimer(ros::TimerEvent());
  clockNs += 2000000000;
  n.cbPredictTimer(ros::TimerEvent());
  CHECK(Out::last.linear.x == 0);
  clockNs += 5000000000;
  command(n, 0.5, 0, 0);
  command(n, 0.5, 0, 0);
  CHECK(Out::last.linear.x == 0);
''')
seed("P17-hold", "P17", [(SL, "    if (r_lim_current < 1.0)\n      hold_off_ = now + hold_;", "    if (r_lim_current < r_lim_)\n      hold_off_ = now + hold_;")],
     "the obstacle is still seen when the restriction is already in force, and a command comes after the first hold time", "a persisting obstacle no longer extends the hold: the restriction is lifted in front of it",
     '''  Node& n = node();
  n.tmax_ = 5;
  n.twist_ = twist(1.0, 0, 0);
  for (int i = 0; i < 3; i++)
  {
    n.cloud_accum_->points.clear();
    n.cloud_accum_->points.push_back(pcl::PointXYZ(0.7, 0, 0));
    n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
    n.last_cloud_stamp_ = ros::Time::now();
    n.cbPredictTimer(ros::TimerEvent());
    CHECK(n.r_lim_ < 0.9);
    clockNs += 700000000;
    command(n, 1.0, 0, 0);
    CHECK(n.r_lim_ < 0.9);
  }
''')
PRE = '''  Node& n = node();
  n.dt_ = 0.02;
  n.d_margin_ = 0;
  n.yaw_margin_ = 0;
'''
seed("P24-delay", "P24", [(SL, "    const float delay = 1.0 * (1.0 / hz_) + dt_;", "    const float delay = dt_;")],
     "a control period that is long compared with the sampling step", "the robot keeps its speed during the control period without reserving distance for it",
     PRE + '''  n.hz_ = 2;
  n.twist_ = twist(1.0, 0, 0);
  n.tmax_ = 5;
  n.cloud_accum_->points.push_back(pcl::PointXYZ(1.1, 0, 0));
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  const double v = n.predict(n.twist_);
  CHECK(v * (1.0 / n.hz_ + n.dt_) + v * v / 2 <= 0.62);
''')
seed("P24-lateral", "P24", [(SL, "        Eigen::Translation3f(Eigen::Vector3f(twist_.linear.x * dt_, twist_.linear.y * dt_, 0.0)) *\n        Eigen::AngleAxisf(twist_.angular.z * dt_, Eigen::Vector3f::UnitZ());", "        Eigen::AngleAxisf(twist_.angular.z * dt_, Eigen::Vector3f::UnitZ()) *\n        Eigen::Translation3f(Eigen::Vector3f(twist_.linear.x * dt_, -twist_.linear.y * dt_, 0.0));")],
     "an omnidirectional robot moving sideways towards an obstacle beyond its present reach", "the search for obstacles follows the mirrored sideways motion, which misses the obstacle",
     PRE + '''  n.twist_ = twist(0, 2.0, 0);
  n.tmax_ = 5;
  n.cloud_accum_->points.push_back(pcl::PointXYZ(0, 1.1, 0));
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  const double v = 2 * n.predict(n.twist_);
  CHECK(v * (1.0 / n.hz_ + n.dt_) + v * v / 2 <= 0.62);
''')
seed("P24-escape", "P24", [(SL, "        if (d_escape_remain <= 0 || yaw_escape_remain <= 0)", "        if (d_escape_remain <= 0 && yaw_escape_remain <= 0)")],
     "a robot in collision whose escape distance is zero but whose escape angle is not", "a robot without an escape distance drives on while in collision",
     PRE + '''  n.d_escape_ = 0;
  n.yaw_escape_ = 0.5;
  n.twist_ = twist(1.0, 0, 0);
  n.cloud_accum_->points.push_back(pcl::PointXYZ(0.2, 0, 0));
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  CHECK(n.predict(n.twist_) == 0);
  CHECK(n.has_collision_at_now_);
''')
for i in M:
    stubs(i)

// The safety limiter node in an arbitrary state (no constructor: the state is whatever earlier events left).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <boost/bind.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <vc.h>
#ifndef VC_PROOF
#include <Eigen/Core>
#include <Eigen/Geometry>
#endif
#include <vcstl.h>
#include <vcptr.h>
#include <ros/ros.h>
static int64_t clockNs;
ros::Time ros::Time::now() { return ofNs(clockNs); }
bool ros::Time::isSimTime() { return false; }
#ifdef VC_PROOF
#define unique_ptr vc_shared
#define to_string vc_string_of
namespace std { inline vc_string vc_string_of(int) { return vc_string(""); } }
#endif
#ifdef VC_PROOF
namespace std
{
// contract of remove_if: the predicate sees elements of the range, what remains is a prefix of unknown contents
template <class T, class P> T* vc_remove_if(T* a, T* b, P p)
{
  const long n = b - a;
  if (n == 0)
    return a;
  p(a[vc_i("removed_one", 0, n - 1)]);
  return a + vc_i("kept", 0, n);
}
}  // namespace std
#define remove_if vc_remove_if
#endif
#define main safety_limiter_main
#include <safety_limiter/src/safety_limiter.cpp>
#undef main
typedef geometry_msgs::Twist Twist;
typedef safety_limiter::SafetyLimiterNode Node;
typedef ros::Sink<Twist> Out;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
static Twist twist(const char* a, const char* b, const char* c)
{
  Twist t;
  t.linear.x = vc_r(a, -100, 100);
  t.linear.y = vc_r(b, -100, 100);
  t.linear.z = vc_r("linear_z", -100, 100);
  t.angular.x = vc_r("angular_x", -100, 100);
  t.angular.y = vc_r("angular_y", -100, 100);
  t.angular.z = vc_r(c, -100, 100);
  return t;
}
static bool same(const Twist& a, const Twist& b)
{
  return (a.linear.x == b.linear.x) & (a.linear.y == b.linear.y) & (a.linear.z == b.linear.z) &
         (a.angular.x == b.angular.x) & (a.angular.y == b.angular.y) & (a.angular.z == b.angular.z);
}
static bool zero(const Twist& a) { return same(a, Twist()); }
alignas(16) static unsigned char raw_[sizeof(Node)];
static void cloud(Cloud& c, const char* name)
{
  const long n = vc_sz(name, 0, 1000000);
#ifdef VC_PROOF
  c.points.n_ = n;
#else
  for (long i = 0; i < n; i++)
    c.points.push_back(pcl::PointXYZ(vc_r("px", -3, 3), vc_r("py", -3, 3), vc_r("pz", -1, 1)));
#endif
}
static ros::Time stamp(const char* name, int64_t hi) { return ros::Time::ofNs(vc_i(name, 0, hi)); }
static Node& node()
{
  memset(raw_, 0, sizeof(raw_));
  Node& n = *reinterpret_cast<Node*>(raw_);
  new (&n.fixed_frame_id_) std::string("odom");
  new (&n.base_frame_id_) std::string("base_link");
  new (&n.tfbuf_) tf2_ros::Buffer();
  new (&n.cloud_accum_) Cloud::Ptr(new Cloud);
  new (&n.footprint_p) Node::polygon();
#ifdef VC_PROOF
  new (&ros::Sink<sensor_msgs::PointCloud>::last) sensor_msgs::PointCloud();
#else
  new (&n.parameter_server_mutex_) boost::recursive_mutex();
#endif
  n.tfbuf_.can_ = vc_b("can_transform");
  n.tfbuf_.fail_ = vc_b("transform_fails");
  clockNs = vc_i("now", 1L << 33, 1L << 60);
  n.twist_ = twist("old_x", "old_y", "old_z");
  n.last_cloud_stamp_ = stamp("last_cloud", 1L << 60);
  n.last_disable_cmd_ = stamp("last_disable", clockNs);
  n.hold_off_ = stamp("hold_off", 1L << 61);
  n.stuck_started_since_ = stamp("stuck", clockNs);
  if (vc_native())
  {
    if (vc_b("recent_cloud"))
      n.last_cloud_stamp_ = ros::Time::ofNs(clockNs - vc_i("cloud_age", 0, 2000000000));
    if (vc_b("recent_disable"))
      n.last_disable_cmd_ = ros::Time::ofNs(clockNs - vc_i("disable_age", 0, 2000000000));
    if (vc_b("recent_hold"))
      n.hold_off_ = ros::Time::ofNs(clockNs + vc_i("hold_left", -1000000000, 1000000000));
  }
  n.watchdog_interval_ = ros::Duration::ofNs(vc_i("watchdog_interval", 0, 1L << 40));
  n.hold_ = ros::Duration::ofNs(vc_i("hold", 0, 1L << 40));
  n.hz_ = vc_r("freq", 0.01, 100);
  n.timeout_ = vc_r("cloud_timeout", 0, 10);
  n.disable_timeout_ = vc_r("disable_timeout", 0, 10);
  n.vel_[0] = vc_r("lin_vel", 0.01, 10);
  n.vel_[1] = vc_r("ang_vel", 0.01, 10);
  n.acc_[0] = vc_r("lin_acc", 0.01, 10);
  n.acc_[1] = vc_r("ang_acc", 0.01, 10);
  n.max_values_[0] = vc_r("max_linear_vel", 0, 1000);
  n.max_values_[1] = vc_r("max_angular_vel", 0, 1000);
  n.tmax_ = vc_r("tmax", 0, 1000);
  n.dt_ = vc_r("dt", 0.01, 1);
  n.d_margin_ = vc_r("d_margin", 0, 1);
  n.d_escape_ = vc_r("d_escape", 0, 1);
  n.yaw_margin_ = vc_r("yaw_margin", 0, 1.57);
  n.yaw_escape_ = vc_r("yaw_escape", 0, 1.57);
  n.z_range_[0] = vc_r("z_min", -3, 3);
  n.z_range_[1] = vc_r("z_max", -3, 3);
  n.downsample_grid_ = vc_r("grid", 0, 1);
  n.footprint_radius_ = vc_r("radius", 0, 100);
  n.allow_empty_cloud_ = vc_b("allow_empty_cloud");
  n.cloud_clear_ = vc_b("cloud_clear");
  n.watchdog_stop_ = vc_b("watchdog_stop");
  n.has_cloud_ = vc_b("has_cloud");
  n.has_twist_ = vc_b("has_twist");
  n.has_collision_at_now_ = vc_b("in_collision");
  n.r_lim_ = vc_b("full_speed") ? 1.0 : vc_r("ratio", 0, 1);
  if (vc_native() && vc_b("blocked"))
    n.r_lim_ = 0;
  Out::n = 0;
  return n;
}
#ifndef VC_PROOF
// a round footprint of radius 0.5 and one obstacle ahead, parameters of common size
static double scene(Node& n)
{
  const long k = 64;
  for (long i = 0; i <= k; i++)
    n.footprint_p.v.push_back(Node::vec(0.5 * std::cos(2 * M_PI * (i % k) / k), 0.5 * std::sin(2 * M_PI * (i % k) / k)));
  n.footprint_radius_ = 0.5;
  n.z_range_[0] = -1;
  n.z_range_[1] = 1;
  n.tmax_ = vc_r("horizon_n", 0.1, 4);
  n.dt_ = vc_r("dt_n", 0.02, 0.2);
  n.hz_ = vc_r("freq_n", 2, 50);
  n.acc_[0] = vc_r("acc_n", 0.1, 3);
  n.tfbuf_.tf_ = geometry_msgs::TransformStamped();
  n.tfbuf_.tf_.transform.rotation.w = 1;
  n.tfbuf_.fail_ = false;
  n.has_cloud_ = n.has_twist_ = true;
  n.last_cloud_stamp_ = ros::Time::ofNs(clockNs);
  const float ox = vc_b("touching") ? vc_r("ox_near", 0, 0.4) : vc_r("ox", 0.6, 3);
  const double dir = vc_b("sideways") ? vc_r("dir", -3, 3) : 0;
  n.cloud_accum_->points.clear();
  n.cloud_accum_->points.push_back(pcl::PointXYZ(ox * std::cos(dir), ox * std::sin(dir), 0));
  n.cloud_accum_->points.push_back(pcl::PointXYZ(-50, 0, 0));
  Twist t;
  const double v = vc_b("slow") ? vc_r("slow_speed", 0.1, 1) : vc_r("speed", 0, 3);
  if (vc_b("no_margin"))
    n.d_margin_ = 0;
  t.linear.x = v * std::cos(dir);
  t.linear.y = v * std::sin(dir);
  n.twist_ = t;
  return ox;
}
#endif
// contract of the prediction in the state machine: any ratio that is a number and not negative (entry "predict" of P16)
static double predicted;
extern "C" double predict_contract(Node* n, const Twist&)
{
  n->has_collision_at_now_ = vc_b("collides");
  n->stuck_started_since_ = stamp("stuck_after", clockNs);
  ros::Sink<sensor_msgs::PointCloud>::n++;
  return predicted = vc_r("predicted", 0, 1e9);
}
// contract of the footprint test in the prediction: either answer
extern "C" bool inside_contract(const Node::polygon*, const Node::vec&) { return vc_b("inside"); }

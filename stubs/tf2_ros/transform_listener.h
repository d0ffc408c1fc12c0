// Stand-in: the harness says whether transforms are there and which.
#ifndef VERIF_STUB_TF2_ROS_TRANSFORM_LISTENER_H
#define VERIF_STUB_TF2_ROS_TRANSFORM_LISTENER_H
#include <string>
#include <ros/time.h>
#include <geometry_msgs/TransformStamped.h>
namespace tf2
{
struct TransformException
{
  const char* what() const { return ""; }
};
}  // namespace tf2
namespace tf2_ros
{
struct Buffer
{
  bool can_ = true;
  bool fail_ = false;
  geometry_msgs::TransformStamped tf_;
  bool canTransform(const std::string&, const std::string&, const ros::Time&) const { return can_; }
  geometry_msgs::TransformStamped lookupTransform(const std::string&, const std::string&, const ros::Time&) const
  {
    if (fail_)
      throw tf2::TransformException();
    return tf_;
  }
};
struct TransformListener
{
  explicit TransformListener(Buffer&) {}
};
}  // namespace tf2_ros
#endif

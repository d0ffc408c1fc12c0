// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POSESTAMPED_H
#define VERIF_STUB_GEOMETRY_MSGS_POSESTAMPED_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs
{
struct PoseStamped
{
  std_msgs::Header header;
  Pose pose;
  typedef std::shared_ptr<PoseStamped> Ptr;
  typedef std::shared_ptr<const PoseStamped> ConstPtr;
};
typedef PoseStamped::Ptr PoseStampedPtr;
typedef PoseStamped::ConstPtr PoseStampedConstPtr;
}  // namespace geometry_msgs
#endif

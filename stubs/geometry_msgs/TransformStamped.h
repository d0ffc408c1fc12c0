// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#define VERIF_STUB_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Transform.h>
namespace geometry_msgs
{
struct TransformStamped
{
  std_msgs::Header header;
  std::string child_frame_id;
  Transform transform;
  typedef std::shared_ptr<TransformStamped> Ptr;
  typedef std::shared_ptr<const TransformStamped> ConstPtr;
};
typedef TransformStamped::Ptr TransformStampedPtr;
typedef TransformStamped::ConstPtr TransformStampedConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POSE_H
#define VERIF_STUB_GEOMETRY_MSGS_POSE_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs
{
struct Pose
{
  Point position;
  Quaternion orientation;
  typedef std::shared_ptr<Pose> Ptr;
  typedef std::shared_ptr<const Pose> ConstPtr;
};
typedef Pose::Ptr PosePtr;
typedef Pose::ConstPtr PoseConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_TRANSFORM_H
#define VERIF_STUB_GEOMETRY_MSGS_TRANSFORM_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs
{
struct Transform
{
  Vector3 translation;
  Quaternion rotation;
  typedef std::shared_ptr<Transform> Ptr;
  typedef std::shared_ptr<const Transform> ConstPtr;
};
typedef Transform::Ptr TransformPtr;
typedef Transform::ConstPtr TransformConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_VECTOR3_H
#define VERIF_STUB_GEOMETRY_MSGS_VECTOR3_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace geometry_msgs
{
struct Vector3
{
  double x = 0;
  double y = 0;
  double z = 0;
  typedef std::shared_ptr<Vector3> Ptr;
  typedef std::shared_ptr<const Vector3> ConstPtr;
};
typedef Vector3::Ptr Vector3Ptr;
typedef Vector3::ConstPtr Vector3ConstPtr;
}  // namespace geometry_msgs
#endif

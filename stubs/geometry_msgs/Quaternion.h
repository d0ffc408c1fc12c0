// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_QUATERNION_H
#define VERIF_STUB_GEOMETRY_MSGS_QUATERNION_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace geometry_msgs
{
struct Quaternion
{
  double x = 0;
  double y = 0;
  double z = 0;
  double w = 0;
  typedef std::shared_ptr<Quaternion> Ptr;
  typedef std::shared_ptr<const Quaternion> ConstPtr;
};
typedef Quaternion::Ptr QuaternionPtr;
typedef Quaternion::ConstPtr QuaternionConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_TWIST_H
#define VERIF_STUB_GEOMETRY_MSGS_TWIST_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs
{
struct Twist
{
  Vector3 linear;
  Vector3 angular;
  typedef std::shared_ptr<Twist> Ptr;
  typedef std::shared_ptr<const Twist> ConstPtr;
};
typedef Twist::Ptr TwistPtr;
typedef Twist::ConstPtr TwistConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POINT32_H
#define VERIF_STUB_GEOMETRY_MSGS_POINT32_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace geometry_msgs
{
struct Point32
{
  float x = 0;
  float y = 0;
  float z = 0;
  typedef std::shared_ptr<Point32> Ptr;
  typedef std::shared_ptr<const Point32> ConstPtr;
};
typedef Point32::Ptr Point32Ptr;
typedef Point32::ConstPtr Point32ConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POINT_H
#define VERIF_STUB_GEOMETRY_MSGS_POINT_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace geometry_msgs
{
struct Point
{
  double x = 0;
  double y = 0;
  double z = 0;
  typedef std::shared_ptr<Point> Ptr;
  typedef std::shared_ptr<const Point> ConstPtr;
};
typedef Point::Ptr PointPtr;
typedef Point::ConstPtr PointConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POLYGON_H
#define VERIF_STUB_GEOMETRY_MSGS_POLYGON_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Point32.h>
namespace geometry_msgs
{
struct Polygon
{
  std::vector<Point32> points;
  typedef std::shared_ptr<Polygon> Ptr;
  typedef std::shared_ptr<const Polygon> ConstPtr;
};
typedef Polygon::Ptr PolygonPtr;
typedef Polygon::ConstPtr PolygonConstPtr;
}  // namespace geometry_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_POLYGONSTAMPED_H
#define VERIF_STUB_GEOMETRY_MSGS_POLYGONSTAMPED_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Polygon.h>
namespace geometry_msgs
{
struct PolygonStamped
{
  std_msgs::Header header;
  Polygon polygon;
  typedef std::shared_ptr<PolygonStamped> Ptr;
  typedef std::shared_ptr<const PolygonStamped> ConstPtr;
};
typedef PolygonStamped::Ptr PolygonStampedPtr;
typedef PolygonStamped::ConstPtr PolygonStampedConstPtr;
}  // namespace geometry_msgs
#endif

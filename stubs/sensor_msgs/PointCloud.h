// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_SENSOR_MSGS_POINTCLOUD_H
#define VERIF_STUB_SENSOR_MSGS_POINTCLOUD_H
#include <memory>
#include <vector>
#include <std_msgs/Header.h>
#include <geometry_msgs/Point32.h>
namespace sensor_msgs
{
struct PointCloud
{
  std_msgs::Header header;
  std::vector<geometry_msgs::Point32> points;
};
}  // namespace sensor_msgs
#endif

// Stand-in for a middleware header: the fields only (data: packed x, y, z).
#ifndef VERIF_STUB_SENSOR_MSGS_POINTCLOUD2_H
#define VERIF_STUB_SENSOR_MSGS_POINTCLOUD2_H
#include <cstdint>
#include <memory>
#include <vector>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct PointCloud2
{
  std_msgs::Header header;
  uint32_t height = 0;
  uint32_t width = 0;
  std::vector<uint8_t> data;
  typedef std::shared_ptr<PointCloud2> Ptr;
  typedef std::shared_ptr<const PointCloud2> ConstPtr;
};
typedef PointCloud2::Ptr PointCloud2Ptr;
typedef PointCloud2::ConstPtr PointCloud2ConstPtr;
}  // namespace sensor_msgs
#endif

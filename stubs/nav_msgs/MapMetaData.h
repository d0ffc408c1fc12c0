// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_NAV_MSGS_MAPMETADATA_H
#define VERIF_STUB_NAV_MSGS_MAPMETADATA_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Pose.h>
namespace nav_msgs
{
struct MapMetaData
{
  ros::Time map_load_time;
  float resolution = 0;
  uint32_t width = 0;
  uint32_t height = 0;
  geometry_msgs::Pose origin;
  typedef std::shared_ptr<MapMetaData> Ptr;
  typedef std::shared_ptr<const MapMetaData> ConstPtr;
};
typedef MapMetaData::Ptr MapMetaDataPtr;
typedef MapMetaData::ConstPtr MapMetaDataConstPtr;
}  // namespace nav_msgs
#endif

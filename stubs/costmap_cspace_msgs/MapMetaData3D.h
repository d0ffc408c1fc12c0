// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_COSTMAP_CSPACE_MSGS_MAPMETADATA3D_H
#define VERIF_STUB_COSTMAP_CSPACE_MSGS_MAPMETADATA3D_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Pose.h>
namespace costmap_cspace_msgs
{
struct MapMetaData3D
{
  uint32_t width = 0;
  uint32_t height = 0;
  uint32_t angle = 0;
  float linear_resolution = 0;
  float angular_resolution = 0;
  geometry_msgs::Pose origin;
  typedef std::shared_ptr<MapMetaData3D> Ptr;
  typedef std::shared_ptr<const MapMetaData3D> ConstPtr;
};
typedef MapMetaData3D::Ptr MapMetaData3DPtr;
typedef MapMetaData3D::ConstPtr MapMetaData3DConstPtr;
}  // namespace costmap_cspace_msgs
#endif

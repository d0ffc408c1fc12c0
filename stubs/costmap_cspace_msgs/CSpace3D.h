// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_COSTMAP_CSPACE_MSGS_CSPACE3D_H
#define VERIF_STUB_COSTMAP_CSPACE_MSGS_CSPACE3D_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <costmap_cspace_msgs/MapMetaData3D.h>
namespace costmap_cspace_msgs
{
struct CSpace3D
{
  std_msgs::Header header;
  MapMetaData3D info;
  std::vector<int8_t> data;
  typedef std::shared_ptr<CSpace3D> Ptr;
  typedef std::shared_ptr<const CSpace3D> ConstPtr;
};
typedef CSpace3D::Ptr CSpace3DPtr;
typedef CSpace3D::ConstPtr CSpace3DConstPtr;
}  // namespace costmap_cspace_msgs
#endif

// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_COSTMAP_CSPACE_MSGS_CSPACE3DUPDATE_H
#define VERIF_STUB_COSTMAP_CSPACE_MSGS_CSPACE3DUPDATE_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace costmap_cspace_msgs
{
struct CSpace3DUpdate
{
  std_msgs::Header header;
  uint32_t x = 0;
  uint32_t y = 0;
  uint32_t yaw = 0;
  uint32_t width = 0;
  uint32_t height = 0;
  uint32_t angle = 0;
  std::vector<int8_t> data;
  typedef std::shared_ptr<CSpace3DUpdate> Ptr;
  typedef std::shared_ptr<const CSpace3DUpdate> ConstPtr;
};
typedef CSpace3DUpdate::Ptr CSpace3DUpdatePtr;
typedef CSpace3DUpdate::ConstPtr CSpace3DUpdateConstPtr;
}  // namespace costmap_cspace_msgs
#endif

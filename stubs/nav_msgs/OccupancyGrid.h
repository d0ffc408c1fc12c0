// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_NAV_MSGS_OCCUPANCYGRID_H
#define VERIF_STUB_NAV_MSGS_OCCUPANCYGRID_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <nav_msgs/MapMetaData.h>
namespace nav_msgs
{
struct OccupancyGrid
{
  std_msgs::Header header;
  MapMetaData info;
  std::vector<int8_t> data;
  typedef std::shared_ptr<OccupancyGrid> Ptr;
  typedef std::shared_ptr<const OccupancyGrid> ConstPtr;
};
typedef OccupancyGrid::Ptr OccupancyGridPtr;
typedef OccupancyGrid::ConstPtr OccupancyGridConstPtr;
}  // namespace nav_msgs
#endif

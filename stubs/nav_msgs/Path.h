// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_NAV_MSGS_PATH_H
#define VERIF_STUB_NAV_MSGS_PATH_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/PoseStamped.h>
namespace nav_msgs
{
struct Path
{
  std_msgs::Header header;
  std::vector<geometry_msgs::PoseStamped> poses;
  typedef std::shared_ptr<Path> Ptr;
  typedef std::shared_ptr<const Path> ConstPtr;
};
typedef Path::Ptr PathPtr;
typedef Path::ConstPtr PathConstPtr;
}  // namespace nav_msgs
#endif

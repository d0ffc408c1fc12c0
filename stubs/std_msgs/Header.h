// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_STD_MSGS_HEADER_H
#define VERIF_STUB_STD_MSGS_HEADER_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace std_msgs
{
struct Header
{
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
  typedef std::shared_ptr<Header> Ptr;
  typedef std::shared_ptr<const Header> ConstPtr;
};
typedef Header::Ptr HeaderPtr;
typedef Header::ConstPtr HeaderConstPtr;
}  // namespace std_msgs
#endif

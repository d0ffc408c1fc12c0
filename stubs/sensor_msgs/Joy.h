// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_SENSOR_MSGS_JOY_H
#define VERIF_STUB_SENSOR_MSGS_JOY_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct Joy
{
  std_msgs::Header header;
  std::vector<float> axes;
  std::vector<int32_t> buttons;
  typedef std::shared_ptr<Joy> Ptr;
  typedef std::shared_ptr<const Joy> ConstPtr;
};
typedef Joy::Ptr JoyPtr;
typedef Joy::ConstPtr JoyConstPtr;
}  // namespace sensor_msgs
#endif

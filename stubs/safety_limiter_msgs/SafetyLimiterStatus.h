// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_SAFETY_LIMITER_MSGS_SAFETYLIMITERSTATUS_H
#define VERIF_STUB_SAFETY_LIMITER_MSGS_SAFETYLIMITERSTATUS_H
#include <memory>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace safety_limiter_msgs
{
struct SafetyLimiterStatus
{
  std_msgs::Header header;
  double limit_ratio = 0;
  bool is_cloud_available = false;
  bool has_watchdog_timed_out = false;
  ros::Time stuck_started_since;
};
}  // namespace safety_limiter_msgs
#endif

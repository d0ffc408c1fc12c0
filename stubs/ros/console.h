// Stand-in: log output has no effect on the caller; an assertion of the code is an obligation.
#ifndef VERIF_STUB_ROS_CONSOLE_H
#define VERIF_STUB_ROS_CONSOLE_H
#include <vc.h>
#define ROS_DEBUG(...) do {} while (0)
#define ROS_INFO(...) do {} while (0)
#define ROS_WARN(...) do {} while (0)
#define ROS_ERROR(...) do {} while (0)
#define ROS_FATAL(...) do {} while (0)
#define ROS_INFO_ONCE(...) do {} while (0)
#define ROS_WARN_ONCE(...) do {} while (0)
#define ROS_DEBUG_THROTTLE(...) do {} while (0)
#define ROS_INFO_THROTTLE(...) do {} while (0)
#define ROS_WARN_THROTTLE(...) do {} while (0)
#define ROS_ERROR_THROTTLE(...) do {} while (0)
#define ROS_ERROR_ONCE(...) do {} while (0)
#define ROS_ASSERT(c) vc_prove((c), "assertion of the code: " #c)
#endif

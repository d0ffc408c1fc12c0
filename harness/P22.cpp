// Operator override of the velocity command.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <vc.h>
#include <vcstl.h>
#include <vcptr.h>
#include <ros/ros.h>
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/Joy.h>
#include <std_msgs/Bool.h>
typedef geometry_msgs::Twist Twist;
typedef ros::Sink<Twist> Out;
typedef ros::Sink<std_msgs::Bool> Status;
static int64_t clockNs;
static bool sim;
ros::Time ros::Time::now() { return ofNs(clockNs); }
bool ros::Time::isSimTime() { return sim; }
#define main joystick_interrupt_main
#include <joystick_interrupt/src/joystick_interrupt.cpp>
#undef main
static Twist twist(const char* a, const char* b, const char* c)
{
  Twist t;
  t.linear.x = vc_r(a, -100, 100);
  t.linear.y = vc_r(b, -100, 100);
  t.linear.z = vc_r("linear_z", -100, 100);
  t.angular.x = vc_r("angular_x", -100, 100);
  t.angular.y = vc_r("angular_y", -100, 100);
  t.angular.z = vc_r(c, -100, 100);
  return t;
}
static bool same(const Twist& a, const Twist& b)
{
  return (a.linear.x == b.linear.x) & (a.linear.y == b.linear.y) & (a.linear.z == b.linear.z) &
         (a.angular.x == b.angular.x) & (a.angular.y == b.angular.y) & (a.angular.z == b.angular.z);
}
static Twist before;
static int64_t lastJoy;
// any state earlier events may have left, at any later time
static void state(JoystickInterrupt& j)
{
  sim = vc_b("sim");
  clockNs = vc_i("now", 1L << 33, 1L << 60);
  lastJoy = vc_b("engaged") ? vc_i("last_joy", 1, 1L << 60) : 0;
  vc_assume(lastJoy <= clockNs);
  if (vc_native() && lastJoy && vc_b("recent"))
    lastJoy = clockNs - vc_i("age", 0, 800000000);
  j.last_joy_msg_ = ros::Time::ofNs(lastJoy);
  j.last_input_twist_ = before = twist("last_x", "last_y", "last_z");
  j.timeout_ = vc_r("timeout", 0, 8);
  j.linear_vel_ = vc_r("linear_vel", -10, 10);
  j.angular_vel_ = vc_r("angular_vel", -10, 10);
  j.linear_y_vel_ = vc_r("linear_y_vel", -10, 10);
  j.linear_high_speed_ratio_ = vc_r("linear_ratio", 0, 10);
  j.angular_high_speed_ratio_ = vc_r("angular_ratio", 0, 10);
  j.linear_axis_ = vc_i("linear_axis", -1, 20);
  j.angular_axis_ = vc_i("angular_axis", -1, 20);
  j.linear_axis2_ = vc_i("linear_axis2", -1, 20);
  j.angular_axis2_ = vc_i("angular_axis2", -1, 20);
  j.linear_y_axis_ = vc_i("linear_y_axis", -1, 20);
  j.linear_y_axis2_ = vc_i("linear_y_axis2", -1, 20);
  j.interrupt_button_ = vc_i("interrupt_button", 0, 20);
  j.high_speed_button_ = vc_i("high_speed_button", -1, 20);
  Out::n = 0;
  Status::n = 0;
}
static sensor_msgs::Joy::Ptr joy()
{
  sensor_msgs::Joy::Ptr m(new sensor_msgs::Joy);
  const long a = vc_sz("axes", 0, 20), b = vc_sz("buttons", 0, 20);
#ifdef VC_PROOF
  m->axes.n_ = a;
  vc_arr(m->axes.p_, a, "axis", -1, 1);
  m->buttons.n_ = b;
  vc_arr(m->buttons.p_, b, "button", 0, 1);
#else
  for (long i = 0; i < a; i++)
    m->axes.push_back((float)vc_r("axis", -1, 1));
  for (long i = 0; i < b; i++)
    m->buttons.push_back((int)vc_i("button", 0, 1));
#endif
  return m;
}
static float axis(const sensor_msgs::Joy& m, int a) { return a >= 0 && (size_t)a < m.axes.size() ? m.axes[a] : 0; }
static float stick(const sensor_msgs::Joy& m, int a, int b)
{
  const float u = axis(m, a), v = axis(m, b);
  return std::abs(v) > std::abs(u) ? v : u;
}
VC_ENTRY autonomous()
{
  JoystickInterrupt j;
  state(j);
  const Twist t = twist("x", "y", "z");
  Twist::Ptr m(new Twist(t));
  j.cbTwist(m);
  const int64_t to = ros::Duration(j.timeout_).ns_;
  const bool recent = lastJoy != 0 && clockNs - lastJoy <= to;
  vc_prove(Status::n == 1, "the state is reported with every command");
  if (recent)
  {
    vc_prove(Out::n == 0, "the autonomous command is not forwarded while the operator is engaged");
    vc_prove(!Status::last.data, "an engaged operator is reported");
    vc_cover("engaged");
  }
  else if (lastJoy != 0 || sim || clockNs > to)
  {
    vc_prove(Out::n == 1, "the autonomous command is forwarded once the operator let go or timed out");
    vc_prove(same(Out::last, t), "the autonomous command passes unchanged");
    vc_prove(Status::last.data, "a disengaged operator is reported");
    vc_cover("free");
  }
  vc_prove(same(j.last_input_twist_, t), "the latest autonomous command is remembered");
  vc_prove(j.last_joy_msg_.ns_ == lastJoy, "a command does not change the engagement");
}
// an axis is unused, not there, or one of the stick's
static void axisCase(int part, int a, size_t n) { vc_assume(part == 0 ? a < 0 : part == 1 ? a >= 0 && (size_t)a >= n : a >= 0 && (size_t)a < n); }
static void operatorInput(int part)
{
  JoystickInterrupt j;
  state(j);
  const sensor_msgs::Joy::Ptr m = joy();
  if (!vc_native())
  {
    // the nine cases of the first two axes, one per entry
    axisCase(part % 3, j.linear_axis_, m->axes.size());
    axisCase(part / 3, j.linear_axis2_, m->axes.size());
  }
  const bool valid = (size_t)j.interrupt_button_ < m->buttons.size();
  const bool held = valid && m->buttons[j.interrupt_button_] != 0;
  j.cbJoy(m);
  vc_prove(same(j.last_input_twist_, before), "operator input does not change the remembered command");
  if (held)
  {
    vc_prove(j.last_joy_msg_.ns_ == clockNs, "holding the button engages the operator from now on");
    vc_prove(Out::n == 1, "the operator's command is published");
    float x = stick(*m, j.linear_axis_, j.linear_axis2_), y = stick(*m, j.linear_y_axis_, j.linear_y_axis2_), a = stick(*m, j.angular_axis_, j.angular_axis2_);
    if (j.high_speed_button_ >= 0 && (size_t)j.high_speed_button_ < m->buttons.size() && m->buttons[j.high_speed_button_])
    {
      x *= j.linear_high_speed_ratio_;
      y *= j.linear_high_speed_ratio_;
      a *= j.angular_high_speed_ratio_;
    }
    vc_eqt(Out::last.linear.x, x * j.linear_vel_, 1e-3, "forward speed follows the stick");
    vc_eqt(Out::last.linear.y, y * j.linear_y_vel_, 1e-3, "sideways speed follows the stick");
    vc_eqt(Out::last.angular.z, a * j.angular_vel_, 1e-3, "turn rate follows the stick");
    vc_prove((Out::last.linear.z == 0) & (Out::last.angular.x == 0) & (Out::last.angular.y == 0), "no other motion is commanded");
    vc_cover("held");
  }
  else
  {
    vc_prove(j.last_joy_msg_.ns_ == 0, "letting go of the button disengages the operator");
    if (valid && lastJoy != 0)
    {
      vc_prove(Out::n == 1, "letting go restores the autonomous command at once");
      vc_prove(same(Out::last, before), "the restored command is the latest autonomous one");
      vc_cover("released");
    }
    else
    {
      vc_prove(Out::n == 0, "without engagement operator input commands nothing");
      vc_cover("idle");
    }
  }
}
VC_ENTRY operator_0() { operatorInput(0); }
VC_ENTRY operator_1() { operatorInput(1); }
VC_ENTRY operator_2() { operatorInput(2); }
VC_ENTRY operator_3() { operatorInput(3); }
VC_ENTRY operator_4() { operatorInput(4); }
VC_ENTRY operator_5() { operatorInput(5); }
VC_ENTRY operator_6() { operatorInput(6); }
VC_ENTRY operator_7() { operatorInput(7); }
VC_ENTRY operator_8() { operatorInput(8); }
VC_ENTRY start()
{
  sim = false;
  clockNs = 1L << 40;
  JoystickInterrupt j;
  vc_prove(j.last_joy_msg_.ns_ == 0, "at the start the operator is not engaged");
  vc_cover("started");
}

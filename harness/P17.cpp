// Stop without data: one event from any state.
#include "limiter.h"
VC_ENTRY command()
{
  Node& n = node();
  const Twist t = twist("x", "y", "z");
  const bool recent = clockNs - n.last_disable_cmd_.ns_ < ros::Duration(n.disable_timeout_).ns_;
  const double r = n.r_lim_;
  const bool stop = !n.has_cloud_ || n.watchdog_stop_;
  const bool hc = n.has_cloud_, ws = n.watchdog_stop_;
  const int64_t ho = n.hold_off_.ns_, lc = n.last_cloud_stamp_.ns_, ld = n.last_disable_cmd_.ns_;
  n.cbTwist(Twist::Ptr(new Twist(t)));
  vc_prove(Out::n == 1, "every command is answered by one output");
  if (stop && !recent)
  {
    vc_prove(zero(Out::last), "the robot is stopped without data or watchdog");
    vc_prove(n.r_lim_ == r, "the restriction is kept while stopped");
    vc_cover("stopped");
  }
  if (!recent && !stop && r == 0)
  {
    vc_prove((Out::last.linear.x == 0) & (Out::last.linear.y == 0) & (Out::last.angular.z == 0), "a zero ratio stops the robot");
    vc_cover("blocked");
  }
  vc_prove((n.r_lim_ == r) | (n.r_lim_ == 1.0), "a command changes the restriction only by lifting it");
  if (clockNs <= ho)
  {
    vc_prove(n.r_lim_ == r, "the restriction is kept for the hold time");
    vc_cover("held");
  }
  vc_prove((n.has_cloud_ == hc) & (n.watchdog_stop_ == ws) & (n.hold_off_.ns_ == ho), "a command changes no other stop condition");
  vc_prove((n.last_cloud_stamp_.ns_ == lc) & (n.last_disable_cmd_.ns_ == ld), "a command refreshes neither the cloud nor the disable request");
  vc_prove(same(n.twist_, t) && n.has_twist_, "the command is the one predicted from");
}
VC_ENTRY watchdog()
{
  Node& n = node();
  const bool hc = n.has_cloud_;
  const int64_t ho = n.hold_off_.ns_;
  n.cbWatchdogTimer(ros::TimerEvent());
  vc_prove(Out::n == 1 && zero(Out::last), "the expired watchdog stops the robot at once");
  vc_prove(n.watchdog_stop_, "the expired watchdog is remembered");
  vc_prove(n.r_lim_ == 0, "the expired watchdog leaves the full restriction");
  vc_prove((n.has_cloud_ == hc) & (n.hold_off_.ns_ == ho), "the watchdog changes no other stop condition");
  vc_cover("expired");
}
VC_ENTRY watchdog_reset()
{
  Node& n = node();
  const double r = n.r_lim_;
  const bool hc = n.has_cloud_;
  const int64_t ho = n.hold_off_.ns_;
  const long k = n.watchdog_timer_.resets_;
  n.cbWatchdogReset(std_msgs::Empty::Ptr(new std_msgs::Empty));
  vc_prove(!n.watchdog_stop_, "a reset revives the watchdog");
  vc_prove(n.watchdog_timer_.period_ == n.watchdog_interval_.ns_ && n.watchdog_timer_.resets_ == k + 1, "a reset restarts the watchdog period");
  vc_prove(n.r_lim_ == r && n.has_cloud_ == hc && n.hold_off_.ns_ == ho, "a reset lifts no other restriction");
  vc_prove(Out::n == 0, "a reset commands nothing");
  vc_cover("reset");
}
VC_ENTRY predict_timer()
{
  Node& n = node();
#ifndef VC_PROOF
  const bool known = vc_b("obstacle");
  if (known)
  {
    scene(n);
    predicted = n.predict(n.twist_);
  }
#else
  const bool known = true;
#endif
  const double r = n.r_lim_;
  const bool hc = n.has_cloud_, ht = n.has_twist_, ws = n.watchdog_stop_;
  const int64_t ho = n.hold_off_.ns_, lc = n.last_cloud_stamp_.ns_, ld = n.last_disable_cmd_.ns_;
  const bool late = clockNs - lc > ros::Duration(n.timeout_).ns_;
  const Cloud* before = n.cloud_accum_.get();
  n.cbPredictTimer(ros::TimerEvent());
  if (ht && hc && late)
  {
    vc_prove(Out::n == 1 && zero(Out::last), "a timed-out cloud stops the robot at once");
    vc_prove(!n.has_cloud_, "a timed-out cloud is forgotten");
    vc_prove(n.r_lim_ == 0, "a timed-out cloud leaves the full restriction");
    vc_prove(n.cloud_accum_->size() == 0 || n.cloud_clear_, "old points are not used after a timeout");
    vc_cover("late");
  }
  else
    vc_prove(Out::n == 0, "the prediction commands nothing");
  if (ht && hc && !late)
  {
    vc_prove(n.has_cloud_, "a fresh cloud stays available");
    vc_prove(!known ? (n.r_lim_ <= r) : n.r_lim_ == (predicted < r ? predicted : r), "the restriction becomes the stricter of the old and the predicted one");
    if (known && predicted < 1.0)
    {
      vc_prove(n.hold_off_.ns_ == clockNs + n.hold_.ns_, "an obstacle restarts the hold time");
      vc_cover("obstacle");
    }
    else if (known)
      vc_prove(n.hold_off_.ns_ == ho, "without an obstacle the hold time runs on");
    vc_prove(n.cloud_clear_, "a cloud is used for one prediction round");
  }
  if (!ht || !hc)
  {
    vc_prove((n.r_lim_ == r) & (n.has_cloud_ == hc), "without data the prediction lifts no restriction");
    vc_cover("idle");
  }
  vc_prove(n.watchdog_stop_ == ws && n.last_cloud_stamp_.ns_ == lc && n.last_disable_cmd_.ns_ == ld, "the prediction refreshes neither the watchdog nor the cloud nor the disable request");
  vc_prove(n.hold_off_.ns_ >= ho || n.hold_off_.ns_ >= clockNs, "the hold time is never cut short");
}
VC_ENTRY cloud_event()
{
  Node& n = node();
  const double r = n.r_lim_;
  const bool hc = n.has_cloud_, ws = n.watchdog_stop_;
  const int64_t ho = n.hold_off_.ns_, lc = n.last_cloud_stamp_.ns_, ld = n.last_disable_cmd_.ns_;
  sensor_msgs::PointCloud2::Ptr m(new sensor_msgs::PointCloud2);
  m->header.stamp = stamp("stamp", 1L << 60);
  const long k = vc_sz("points", 0, 1000000);
#ifdef VC_PROOF
  m->data.n_ = 12 * k;
#else
  m->data.resize(12 * k);
#endif
  const bool lost = k > 0 && n.tfbuf_.fail_;
  cloud(*n.cloud_accum_, "accumulated");
  const size_t s = n.cloud_accum_->size();
  const bool cc = n.cloud_clear_;
  n.cbCloud(m);
  if (lost)
  {
    vc_prove((n.has_cloud_ == hc) & (n.last_cloud_stamp_.ns_ == lc), "a cloud that cannot be placed does not count as fresh data");
    vc_prove(n.cloud_accum_->size() == s && n.cloud_clear_ == cc, "a cloud that cannot be placed changes nothing");
    vc_cover("lost");
  }
  else
  {
    vc_prove(n.has_cloud_ && n.last_cloud_stamp_.ns_ == m->header.stamp.ns_, "the age of the data is the age of the newest cloud");
    vc_prove(n.cloud_accum_->size() == (cc ? 0 : s) + k, "clouds accumulate until they were used for a prediction");
    vc_prove(!n.cloud_clear_, "a used cloud is dropped once");
    vc_cover("fresh");
  }
  vc_prove(n.r_lim_ == r && n.hold_off_.ns_ == ho, "a cloud lifts no restriction");
  vc_prove(n.watchdog_stop_ == ws && n.last_disable_cmd_.ns_ == ld, "a cloud refreshes neither the watchdog nor the disable request");
  vc_prove(Out::n == 0, "a cloud commands nothing");
}
VC_ENTRY disable_event()
{
  Node& n = node();
  const double r = n.r_lim_;
  const bool hc = n.has_cloud_, ws = n.watchdog_stop_;
  const int64_t ho = n.hold_off_.ns_, ld = n.last_disable_cmd_.ns_, lc = n.last_cloud_stamp_.ns_;
  std_msgs::Bool::Ptr m(new std_msgs::Bool);
  m->data = vc_b("disable");
  const bool on = m->data;
  n.cbDisable(m);
  vc_prove(n.last_disable_cmd_.ns_ == (on ? clockNs : ld), "only a true disable request counts and it counts from now");
  vc_prove(n.r_lim_ == r && n.hold_off_.ns_ == ho && n.has_cloud_ == hc && n.watchdog_stop_ == ws && n.last_cloud_stamp_.ns_ == lc, "a disable request changes no stop condition");
  vc_prove(Out::n == 0, "a disable request commands nothing");
  vc_cover("disable");
}
VC_ENTRY diagnosis()
{
  Node& n = node();
  const double r = n.r_lim_;
  const bool hc = n.has_cloud_, ws = n.watchdog_stop_;
  diagnostic_updater::DiagnosticStatusWrapper s;
  ros::Sink<safety_limiter_msgs::SafetyLimiterStatus>::n = 0;
  n.diagnoseCollision(s);
  const safety_limiter_msgs::SafetyLimiterStatus& m = ros::Sink<safety_limiter_msgs::SafetyLimiterStatus>::last;
  vc_prove(ros::Sink<safety_limiter_msgs::SafetyLimiterStatus>::n == 1, "the status is published once");
  vc_prove(m.limit_ratio == r && m.is_cloud_available == hc && m.has_watchdog_timed_out == ws, "the status is the state");
  vc_prove((!hc || ws) == (s.level_ == diagnostic_msgs::DiagnosticStatus::ERROR), "an error is reported exactly without data or watchdog");
  vc_prove(n.r_lim_ == r && n.has_cloud_ == hc && n.watchdog_stop_ == ws, "reporting changes nothing");
  vc_cover("diagnosed");
}
VC_ENTRY reconfigured()
{
  Node& n = node();
  const bool hc = n.has_cloud_, ws = n.watchdog_stop_;
  const int64_t lc = n.last_cloud_stamp_.ns_, ld = n.last_disable_cmd_.ns_, ho = n.hold_off_.ns_;
  safety_limiter::SafetyLimiterConfig c;
  c.freq = vc_r("c_freq", 0.01, 100);
  c.cloud_timeout = vc_r("c_cloud_timeout", 0, 10);
  c.disable_timeout = vc_r("c_disable_timeout", 0, 10);
  c.lin_vel = vc_r("c_lin_vel", 0.01, 10);
  c.lin_acc = vc_r("c_lin_acc", 0.01, 10);
  c.max_linear_vel = vc_r("c_max_linear_vel", 0, 10);
  c.ang_vel = vc_r("c_ang_vel", 0.01, 10);
  c.ang_acc = vc_r("c_ang_acc", 0.01, 10);
  c.max_angular_vel = vc_r("c_max_angular_vel", 0, 10);
  c.z_range_min = vc_r("c_z_min", -3, 3);
  c.z_range_max = vc_r("c_z_max", -3, 3);
  c.dt = vc_r("c_dt", 0.01, 1);
  c.d_margin = vc_r("c_d_margin", 0, 1);
  c.d_escape = vc_r("c_d_escape", 0, 1);
  c.yaw_margin = vc_r("c_yaw_margin", 0, 1.57);
  c.yaw_escape = vc_r("c_yaw_escape", 0, 1.57);
  c.downsample_grid = vc_r("c_grid", 0, 1);
  c.hold = vc_r("c_hold", 0, 10);
  c.allow_empty_cloud = vc_b("c_allow_empty_cloud");
  n.cbParameter(c, 0);
  vc_prove(n.timeout_ == c.cloud_timeout && n.disable_timeout_ == c.disable_timeout, "the timeouts are the configured ones");
  vc_prove(n.max_values_[0] == c.max_linear_vel && n.max_values_[1] == c.max_angular_vel, "the maxima are the configured ones");
  vc_prove(n.acc_[0] == c.lin_acc && n.acc_[1] == c.ang_acc && n.vel_[0] == c.lin_vel && n.vel_[1] == c.ang_vel && n.dt_ == c.dt && n.hz_ == c.freq,
           "the motion limits are the configured ones");
  vc_prove(n.d_margin_ == c.d_margin && n.yaw_margin_ == c.yaw_margin && n.d_escape_ == c.d_escape && n.yaw_escape_ == c.yaw_escape && n.allow_empty_cloud_ == c.allow_empty_cloud &&
           n.z_range_[0] == c.z_range_min && n.z_range_[1] == c.z_range_max && n.downsample_grid_ == c.downsample_grid, "the margins are the configured ones");
  vc_prove(n.hold_.ns_ >= ros::Duration(c.hold).ns_, "the hold time is at least the configured one");
  vc_let(1.0, n.hold_.toSec() * c.freq + 1e-6, 1e-6, "the hold time spans at least one prediction");
  vc_let(c.lin_vel, n.tmax_ * c.lin_acc, 1e-6, "the prediction reaches until a forward motion has stopped");
  vc_let(c.ang_vel, n.tmax_ * c.ang_acc, 1e-6, "the prediction reaches until a turn has stopped");
  vc_prove((n.r_lim_ >= 0) & (n.r_lim_ <= 1), "the ratio stays between 0 and 1");
  vc_prove(n.has_cloud_ == hc && n.watchdog_stop_ == ws && n.last_cloud_stamp_.ns_ == lc && n.last_disable_cmd_.ns_ == ld && n.hold_off_.ns_ == ho, "new parameters change no stop condition");
  vc_prove(Out::n == 0, "new parameters command nothing");
  vc_cover("reconfigured");
}
VC_ENTRY start()
{
  typedef XmlRpc::XmlRpcValue V;
  ros::NodeHandle::params_ = true;
  V::type0 = V::TypeArray;
  V::type1 = V::TypeArray;
  V::type2 = V::TypeDouble;
  V::size0 = vc_sz("vertices", 3, 1000);
  V::size1 = 2;
  clockNs = vc_i("now", 1L << 36, 1L << 60);
  Out::n = 0;
  Node n;
  n.disable_timeout_ = vc_r("disable_timeout", 0, 10);
  n.max_values_[0] = vc_r("max_linear_vel", 0, 10);
  n.max_values_[1] = vc_r("max_angular_vel", 0, 10);
  n.r_lim_ = vc_r("ratio", 0, 1);
  vc_prove(Out::n == 0, "starting commands nothing");
  vc_prove(!n.has_cloud_, "at the start no cloud has arrived");
  n.cbTwist(Twist::Ptr(new Twist(twist("x", "y", "z"))));
  vc_prove(Out::n == 1 && zero(Out::last), "before the first cloud the robot is stopped");
  vc_cover("started");
}
VC_ENTRY timers()
{
  Node& n = node();
  const bool watched = n.watchdog_interval_.ns_ != 0;
  ros::NodeHandle::timers_ = 0;
  n.spin();
  vc_prove(ros::NodeHandle::timers_ == (watched ? 2 : 1), "the prediction and, when configured, the watchdog run on timers");
  vc_prove(ros::NodeHandle::first_ == ros::Duration(1.0 / n.hz_).ns_ || (watched && n.watchdog_timer_.period_ == n.watchdog_interval_.ns_), "the prediction runs at its frequency");
  if (watched)
    vc_prove(n.watchdog_timer_.period_ == n.watchdog_interval_.ns_, "the watchdog expires after its interval");
  vc_cover("running");
}

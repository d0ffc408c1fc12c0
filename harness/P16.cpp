// Output limits of the safety limiter and the prediction's result.
#include "limiter.h"
static double mag(double x) { return x < 0 ? -x : x; }
static double dist(double x, double y) { return std::hypot(x, y); }
// what every limit promises: no component larger, none turned round, nothing else commanded anew
static void reduces(const Twist& in, const Twist& out)
{
  vc_let(mag(out.linear.x), mag(in.linear.x), 1e-9, "forward speed is not increased");
  vc_let(mag(out.linear.y), mag(in.linear.y), 1e-9, "sideways speed is not increased");
  vc_let(mag(out.angular.z), mag(in.angular.z), 1e-9, "turn rate is not increased");
  vc_prove(out.linear.x * in.linear.x >= 0, "forward motion is not reversed");
  vc_prove(out.linear.y * in.linear.y >= 0, "sideways motion is not reversed");
  vc_prove(out.angular.z * in.angular.z >= 0, "the turn is not reversed");
  vc_eqt(out.linear.x * in.linear.y, out.linear.y * in.linear.x, 1e-6, "the direction of travel is kept");
  vc_prove((out.linear.z == in.linear.z) & (out.angular.x == in.angular.x) & (out.angular.y == in.angular.y), "unused components pass");
}
VC_ENTRY ratio()
{
  Node& n = node();
  const Twist t = twist("x", "y", "z");
  const Twist o = n.limit(t);
  reduces(t, o);
  const double r = n.r_lim_;
  // within the dead band of the comparison with one
  vc_let(mag(o.linear.x - r * t.linear.x), 2e-6 * mag(t.linear.x), 1e-9, "forward speed is scaled by the ratio");
  vc_let(mag(o.linear.y - r * t.linear.y), 2e-6 * mag(t.linear.y), 1e-9, "sideways speed is scaled by the ratio");
  vc_let(mag(o.angular.z - r * t.angular.z), 2e-6 * mag(t.angular.z), 1e-9, "turn rate is scaled by the ratio");
  if (r == 1.0)
  {
    vc_prove(same(o, t), "a free robot moves as commanded");
    vc_cover("free");
  }
  if (r == 0)
  {
    vc_prove((o.linear.x == 0) & (o.linear.y == 0) & (o.angular.z == 0), "a blocked robot does not move");
    vc_cover("blocked");
  }
  vc_prove(n.r_lim_ == r && Out::n == 0, "limiting changes nothing else");
}
VC_ENTRY maxima()
{
  Node& n = node();
  const Twist t = twist("x", "y", "z");
  const Twist o = n.limitMaxVelocities(t);
  reduces(t, o);
  const double vm = n.max_values_[0], wm = n.max_values_[1];
  vc_let(dist(o.linear.x, o.linear.y), vm, 1e-6, "linear speed stays within its maximum");
  vc_let(mag(o.angular.z), wm, 1e-9, "turn rate stays within its maximum");
  if (dist(t.linear.x, t.linear.y) <= vm)
  {
    vc_prove((o.linear.x == t.linear.x) & (o.linear.y == t.linear.y), "an allowed linear velocity passes");
    vc_cover("slow");
  }
  else
  {
    vc_let(vm, dist(o.linear.x, o.linear.y), 1e-6, "a too fast motion runs at the maximum");
    vc_cover("fast");
  }
  vc_prove(mag(t.angular.z) > wm || o.angular.z == t.angular.z, "an allowed turn rate passes");
}
VC_ENTRY command()
{
  Node& n = node();
  const Twist t = twist("x", "y", "z");
  const double r = n.r_lim_;
  const bool recent = clockNs - n.last_disable_cmd_.ns_ < ros::Duration(n.disable_timeout_).ns_;
  n.cbTwist(Twist::Ptr(new Twist(t)));
  const Twist& o = Out::last;
  vc_prove(Out::n == 1, "every command is answered by one output");
  vc_let(mag(o.linear.x), mag(t.linear.x), 1e-9, "published forward speed is not larger than commanded");
  vc_let(mag(o.linear.y), mag(t.linear.y), 1e-9, "published sideways speed is not larger than commanded");
  vc_let(mag(o.angular.z), mag(t.angular.z), 1e-9, "published turn rate is not larger than commanded");
  vc_prove((o.linear.x * t.linear.x >= 0) & (o.linear.y * t.linear.y >= 0) & (o.angular.z * t.angular.z >= 0), "the published motion is not reversed");
  vc_let(dist(o.linear.x, o.linear.y), n.max_values_[0], 1e-6, "published linear speed stays within its maximum");
  vc_let(mag(o.angular.z), n.max_values_[1], 1e-9, "published turn rate stays within its maximum");
  if (!recent)
  {
    const double k = r + 2e-6;
    vc_let(mag(o.linear.x), k * mag(t.linear.x), 1e-9, "published forward speed respects the ratio");
    vc_let(mag(o.linear.y), k * mag(t.linear.y), 1e-9, "published sideways speed respects the ratio");
    vc_let(mag(o.angular.z), k * mag(t.angular.z), 1e-9, "published turn rate respects the ratio");
    vc_cover("limited");
  }
  vc_prove((n.r_lim_ >= 0) & (n.r_lim_ <= 1), "the ratio stays between 0 and 1");
}
VC_ENTRY prediction()
{
  Node& n = node();
#ifndef VC_PROOF
  scene(n);
  if (vc_b("turning"))
    n.twist_.angular.z = vc_r("turn", -0.5, 0.5);
#endif
  n.cbPredictTimer(ros::TimerEvent());
  vc_prove((n.r_lim_ >= 0) & (n.r_lim_ <= 1), "the ratio stays between 0 and 1");
  vc_cover("predicted");
}
VC_ENTRY predict()
{
  Node& n = node();
  cloud(*n.cloud_accum_, "points");
#ifdef VC_PROOF
  n.footprint_p.v.n_ = vc_sz("vertices", 4, 1000);
  vc_arr_r_(&n.footprint_p.v.p_[0].c[0], n.footprint_p.v.n_, sizeof(Node::vec), 104, "vertex_x", -100, 100);
  vc_arr_r_(&n.footprint_p.v.p_[0].c[1], n.footprint_p.v.n_, sizeof(Node::vec), 104, "vertex_y", -100, 100);
#else
  const long k = vc_i("corners", 3, 6);
  for (long i = 0; i <= k; i++)
    n.footprint_p.v.push_back(Node::vec(0.5 * std::cos(2 * M_PI * (i % k) / k), 0.5 * std::sin(2 * M_PI * (i % k) / k)));
#endif
  const bool empty = n.cloud_accum_->size() == 0, lost = n.tfbuf_.fail_;
  const double p = n.predict(n.twist_);
  vc_prove(p >= 0, "the predicted ratio is a number and not negative");
  if (empty)
  {
    vc_prove(n.allow_empty_cloud_ ? p == 1.0 : p == 0, "an empty cloud stops the robot unless that is allowed");
    vc_cover("empty");
  }
  else if (lost)
  {
    vc_prove(p == 0, "a cloud that cannot be placed stops the robot");
    vc_cover("lost");
  }
  else
    vc_cover("predicted");
  vc_prove(Out::n == 0, "the prediction commands nothing");
}

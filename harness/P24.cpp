// The predicted ratio leaves room to stop before the predicted collision.
#include "limiter.h"
typedef pcl::PointXYZ Point;
static long sampled;    // samples of the predicted motion looked at so far
static long firstHit;   // the first of them found in collision, -1: none yet
static double vdt, wdt;
static double mag(double x) { return x < 0 ? -x : x; }
#ifdef VC_PROOF
extern "C" int search_contract(const pcl::KdTreeFLANN<Point>* t, const Point&, double r, std::vector<int>& indices, std::vector<float>& dist)
{
  vc_prove(!t->in_->empty(), "the search is over a cloud with points");
  vc_prove((Eigen::applied.n1 == 0) & (Eigen::applied.n2 == sampled) & !Eigen::applied.bad, "obstacles are searched around each predicted position of the robot");
  ++sampled;
  indices.n_ = vc_i("found", 0, t->in_->points.n_);
  dist.n_ = indices.n_;
  vc_arr_i_(indices.p_, indices.n_, 4, 4, "found_index", 0, t->in_->points.n_ - 1);
  return indices.n_;
}
extern "C" bool footprint_contract(const Node::polygon*, const Node::vec&)
{
  vc_prove((Eigen::applied.n1 == sampled - 1) & (Eigen::applied.n2 == 0) & !Eigen::applied.bad, "obstacles are seen from each predicted position of the robot");
  const bool c = vc_b("inside");
  if (c && firstHit < 0)
    firstHit = sampled - 1;
  return c;
}
#endif
VC_ENTRY braking()
{
  Node& n = node();
  cloud(*n.cloud_accum_, "points");
  vc_assume(n.cloud_accum_->size() > 0);
  n.tfbuf_.fail_ = false;
  n.allow_empty_cloud_ = false;
  n.tmax_ = vc_r("horizon", 0.01, 1000);
  const double v = std::hypot(n.twist_.linear.x, n.twist_.linear.y), w = n.twist_.angular.z;
  vdt = v * n.dt_;
  wdt = w * n.dt_;
#ifdef VC_PROOF
  vc_ghost_r("vdt", vdt);
  vc_ghost_r("wdt", wdt);
  vc_ghost_r("d_escape", n.d_escape_);
  vc_ghost_r("yaw_escape", n.yaw_escape_);
  n.footprint_p.v.n_ = vc_sz("vertices", 4, 1000);
  sampled = 0;
  firstHit = -1;
  const double p = n.predict(n.twist_);
  if (sampled == 0)
  {
    vc_prove(p == 0, "without any point in range the robot stops");
    vc_cover("nothing seen");
    return;
  }
  vc_prove(Eigen::fwd.planar & Eigen::bwd.planar, "the prediction moves in the plane");
  vc_eq(Eigen::bwd.ang, wdt, "each predicted step turns as commanded");
  vc_eq(Eigen::bwd.x, n.twist_.linear.x * n.dt_, "each predicted step goes forward as commanded");
  vc_eq(Eigen::bwd.y, n.twist_.linear.y * n.dt_, "each predicted step goes sideways as commanded");
  vc_eq(Eigen::fwd.ang, -wdt, "obstacles turn against the robot");
  vc_eq(Eigen::fwd.x, -n.twist_.linear.x * n.dt_, "obstacles move backward against the robot");
  vc_eq(Eigen::fwd.y, -n.twist_.linear.y * n.dt_, "obstacles move sideways against the robot");
  if (firstHit < 0)
  {
    vc_prove(p == 1.0, "without a predicted collision the robot is free");
    vc_le(n.tmax_, sampled * n.dt_, "the prediction covers the whole horizon");
    vc_prove(!n.has_collision_at_now_, "no collision is reported");
    vc_cover("free");
  }
  else if (firstHit == 0)
  {
    vc_prove(n.has_collision_at_now_, "a collision at the present position is reported");
    vc_prove(p == 1.0 || (p * v == 0 && p * w == 0), "out of a collision the robot may escape or is stopped");
    if (n.d_escape_ <= 0 || n.yaw_escape_ <= 0)
      vc_prove(p * v == 0 && p * w == 0, "without an escape allowance the robot in collision is stopped");
    vc_cover("in collision");
  }
  else
  {
    vc_prove(!n.has_collision_at_now_, "a later collision is no present one");
    const double delay = 1.0 / n.hz_ + n.dt_;
    const double D = (firstHit - 1) * vdt, Y = mag((firstHit - 1) * wdt);
    vc_prove(D >= 0, "distance before the collision");
    vc_le(p * v * delay + p * v * (p * v) / (2 * n.acc_[0]), D > n.d_margin_ ? D - n.d_margin_ : 0, "the robot can stop before the predicted collision");
    vc_le(p * mag(w) * delay + p * w * (p * w) / (2 * n.acc_[1]), Y > n.yaw_margin_ ? Y - n.yaw_margin_ : 0, "the robot can stop turning before the predicted collision");
    vc_cover("braking");
  }
#else
  const float ox = scene(n);
  if (vc_b("no_escape_distance"))
    n.d_escape_ = 0;
  const Twist t = n.twist_;
  const double speed = std::hypot(t.linear.x, t.linear.y);
  const double p = n.predict(t);
  const double gap = ox - 0.5, s = p * speed;
  const double reach = speed * n.tmax_;
  if (gap < 0)
  {
    vc_prove(n.has_collision_at_now_, "a collision at the present position is reported");
    if (n.d_escape_ <= 0 || n.yaw_escape_ <= 0)
      vc_prove(s == 0, "without an escape allowance the robot in collision is stopped");
    return;
  }
  if (reach < gap - 0.05 - speed * n.dt_)
    vc_prove(p == 1.0, "without a predicted collision the robot is free");
  if (p < 1.0 || reach > gap + 0.05 + speed * n.dt_)
    vc_let(s * (1.0 / n.hz_ + n.dt_) + s * s / (2 * n.acc_[0]), std::max(0.0, gap + 0.01 - n.d_margin_), 2e-2, "the robot can stop before the predicted collision");
#endif
}

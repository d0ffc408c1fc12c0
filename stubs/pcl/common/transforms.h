// Stand-in: in the proof a transformed point is any point; native runs transform it.
#ifndef VERIF_STUB_PCL_COMMON_TRANSFORMS_H
#define VERIF_STUB_PCL_COMMON_TRANSFORMS_H
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
namespace pcl
{
inline PointXYZ transformPoint(const PointXYZ& p, const Eigen::Affine3f& t)
{
#ifdef VC_PROOF
  Eigen::applied = t;
  PointXYZ q;
  q.x = vc_r("transformed_x", -1e6, 1e6);
  q.y = vc_r("transformed_y", -1e6, 1e6);
  q.z = vc_r("transformed_z", -1e6, 1e6);
  return q;
#else
  const Eigen::Vector3f q = t * Eigen::Vector3f(p.x, p.y, p.z);
  return PointXYZ(q[0], q[1], q[2]);
#endif
}
template <class P> void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Affine3f& t)
{
#ifdef VC_PROOF
  out.header = in.header;
  const size_t n = in.points.n_;
  out.points.vc_new();
  out.points.n_ = n;
#else
  PointCloud<P> r = in;
  for (auto& p : r.points)
    p = transformPoint(p, t);
  out = r;
#endif
}
}  // namespace pcl
#endif

// Stand-in: stamps are microseconds; a message's points are packed floats.
#ifndef VERIF_STUB_PCL_CONVERSIONS_PCL_CONVERSIONS_H
#define VERIF_STUB_PCL_CONVERSIONS_PCL_CONVERSIONS_H
#include <cstring>
#include <ros/time.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl_conversions
{
inline ros::Time fromPCL(uint64_t us) { return ros::Time::ofNs(us * 1000); }
}  // namespace pcl_conversions
namespace pcl
{
template <class P> void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& out)
{
  out.header.stamp = m.header.stamp.ns_ / 1000;
  out.header.frame_id = m.header.frame_id;
#ifdef VC_PROOF
  out.points.n_ = m.data.n_ / 12;
#else
  out.points.resize(m.data.size() / 12);
  for (size_t i = 0; i < out.points.size(); i++)
  {
    float f[3];
    std::memcpy(f, &m.data[i * 12], 12);
    out.points[i] = P(f[0], f[1], f[2]);
  }
#endif
}
}  // namespace pcl
#endif

// Stand-in: in the proof any smaller cloud, empty only for an empty one; native runs keep the points.
#ifndef VERIF_STUB_PCL_FILTERS_VOXEL_GRID_H
#define VERIF_STUB_PCL_FILTERS_VOXEL_GRID_H
#include <pcl/point_cloud.h>
namespace pcl
{
template <class P>
struct VoxelGrid
{
  typename PointCloud<P>::Ptr in_;
  void setInputCloud(const typename PointCloud<P>::Ptr& in) { in_ = in; }
  void setLeafSize(float, float, float) {}
  void filter(PointCloud<P>& out)
  {
#ifdef VC_PROOF
    out.points.n_ = vc_i("filtered", in_->points.n_ == 0 ? 0 : 1, in_->points.n_);
#else
    out.points = in_->points;
#endif
  }
};
}  // namespace pcl
#endif

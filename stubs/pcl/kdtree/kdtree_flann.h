// Stand-in: in the proof any selection of the cloud's points; native runs search.
#ifndef VERIF_STUB_PCL_KDTREE_KDTREE_FLANN_H
#define VERIF_STUB_PCL_KDTREE_KDTREE_FLANN_H
#include <vector>
#include <pcl/point_cloud.h>
namespace pcl
{
template <class P>
struct KdTreeFLANN
{
  typename PointCloud<P>::Ptr in_;
  void setInputCloud(const typename PointCloud<P>::Ptr& in) { in_ = in; }
  int radiusSearch(const P& c, double r, std::vector<int>& indices, std::vector<float>& dist) const
  {
    vc_prove(!in_->empty(), "the search is over a cloud with points");
#ifdef VC_PROOF
    indices.n_ = vc_i("found", 0, in_->points.n_);
    dist.n_ = indices.n_;
    vc_arr_i_(indices.p_, indices.n_, 4, 4, "found_index", 0, in_->points.n_ - 1);
#else
    indices.clear();
    dist.clear();
    for (size_t i = 0; i < in_->size(); i++)
    {
      const P& p = (*in_)[i];
      const float d = (p.x - c.x) * (p.x - c.x) + (p.y - c.y) * (p.y - c.y) + (p.z - c.z) * (p.z - c.z);
      if (d <= r * r)
      {
        indices.push_back(i);
        dist.push_back(d);
      }
    }
#endif
    return indices.size();
  }
};
}  // namespace pcl
#endif

// Stand-in: a header and a sequence of points.
#ifndef VERIF_STUB_PCL_POINT_CLOUD_H
#define VERIF_STUB_PCL_POINT_CLOUD_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace pcl
{
struct PCLHeader
{
  uint32_t seq = 0;
  uint64_t stamp = 0;
  std::string frame_id;
};
template <class P>
struct PointCloud
{
  typedef std::shared_ptr<PointCloud> Ptr;
  typedef std::shared_ptr<const PointCloud> ConstPtr;
  PCLHeader header;
  std::vector<P> points;
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  typename std::vector<P>::iterator begin() { return points.begin(); }
  typename std::vector<P>::iterator end() { return points.end(); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  void push_back(const P& p) { points.push_back(p); }
  void clear() { points.clear(); }
  template <class I> void erase(I a, I b) { points.erase(a, b); }
  PointCloud& operator+=(const PointCloud& o)
  {
#ifdef VC_PROOF
    points.n_ += o.points.n_;  // what the points are is left open
#else
    points.insert(points.end(), o.points.begin(), o.points.end());
#endif
    return *this;
  }
};
}  // namespace pcl
#endif

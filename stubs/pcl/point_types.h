// Stand-in: a point.
#ifndef VERIF_STUB_PCL_POINT_TYPES_H
#define VERIF_STUB_PCL_POINT_TYPES_H
namespace pcl
{
struct PointXYZ
{
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0) {}
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
};
}  // namespace pcl
#endif

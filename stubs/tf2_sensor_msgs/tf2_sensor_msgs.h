// Stand-in: a transformed cloud has as many points.
#ifndef VERIF_STUB_TF2_SENSOR_MSGS_TF2_SENSOR_MSGS_H
#define VERIF_STUB_TF2_SENSOR_MSGS_TF2_SENSOR_MSGS_H
#include <sensor_msgs/PointCloud2.h>
#include <geometry_msgs/TransformStamped.h>
namespace tf2
{
inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped&) { out = in; }
}  // namespace tf2
#endif

// Stand-in for the generated parameter type: the fields only.
#ifndef VERIF_STUB_SAFETY_LIMITER_SAFETYLIMITERCONFIG_H
#define VERIF_STUB_SAFETY_LIMITER_SAFETYLIMITERCONFIG_H
namespace safety_limiter
{
struct SafetyLimiterConfig
{
  double freq, cloud_timeout, disable_timeout, lin_vel, lin_acc, max_linear_vel, ang_vel, ang_acc, max_angular_vel, z_range_min, z_range_max,
      dt, d_margin, d_escape, yaw_margin, yaw_escape, downsample_grid, hold;
  bool allow_empty_cloud;
};
}  // namespace safety_limiter
#endif

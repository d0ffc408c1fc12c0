// Angle normalisation, clipping, braking speed.
#include <cmath>
#include <trajectory_tracker/basic_control.h>
#include <vc.h>
using namespace trajectory_tracker;

VC_ENTRY normalize()
{
  const float a = (float)vc_r("angle", -10000, 10000);
  const float r = angleNormalized(a);
  vc_let(-M_PI, r, 1e-5, "normalised angle not below minus half a turn");
  vc_let(r, M_PI, 1e-5, "normalised angle not above half a turn");
  const double k = ((double)r - a) / (2.0 * M_PI);
  vc_prove(vc_native() ? std::fabs(k - std::round(k)) < 2e-2 : k == std::floor(k), "normalised angle differs by whole turns");
  if (std::fabs(a) <= 3.14159f)
    vc_prove(r == a, "an angle within half a turn is not changed");
  vc_cover("end");
}
VC_ENTRY clipping()
{
  const float v = (float)vc_x("value");
  const float m = (float)vc_r("limit", 0, 1e6);
  const float r = clip(v, m);
  if (!std::isnan(v))
  {
    vc_prove(std::fabs(r) <= m, "clipped value within the limit");
    const float o = (float)vc_r("other", -1e6, 1e6);
    if (std::fabs(o) <= m && std::isfinite(v))
      vc_let(std::fabs((double)v - r), std::fabs((double)v - o), 0, "clipped value is the nearest within the limit");
    if (std::fabs(v) <= m)
      vc_prove(r == v, "value within the limit is kept");
    vc_prove(v >= 0 ? r >= 0 : r <= 0, "clipping keeps the sign");
  }
  const float w = (float)vc_x("second");
  if (v <= w)
    vc_prove(r <= clip(w, m), "clipping keeps the order");
  vc_cover("end");
}
VC_ENTRY braking()
{
  const float a = (float)vc_r("angle", -1000, 1000);
  const float acc = (float)vc_r("acc", -1000, 1000);
  const float r = timeOptimalControl(a, acc);
  vc_prove(std::isfinite(r), "braking speed is finite");
  vc_prove((a > 0 ? r <= 0 : a < 0 ? r >= 0 : r == 0) | (acc == 0), "braking speed opposes the remaining angle");
  const double w = 2.0 * std::fabs(a) * std::fabs(acc);
  vc_eqt((double)r * r, w, 1e-5 * (1 + w), "square of the braking speed is twice the angle times the deceleration");
  vc_eqt(timeOptimalControl(-a, acc) + (a == 0 ? 0 : r), 0, 1e-6, "braking speed is odd in the angle");
  vc_cover("end");
}

// Scalar Kalman filter of the slip estimator.
#include <cmath>
#include <limits>
#include <track_odometry/kalman_filter1.h>
#include <vc.h>
using track_odometry::KalmanFilter1;
static double tol(double s) { return 1e-9 * (1 + std::fabs(s)); }

VC_ENTRY measure_finite()
{
  const double x = vc_r("x", -1000, 1000), s = vc_r("sigma", 0, 1000), z = vc_r("z", -1000, 1000), r = vc_r("sigma_in", 0, 1000);
  KalmanFilter1 f(x, s);
  f.measure(z, r);
  vc_prove(std::isfinite(f.x_), "estimate stays finite");
  vc_prove(std::isfinite(f.sigma_), "uncertainty stays finite");
  vc_let(0, f.sigma_, tol(s), "uncertainty never negative");
  vc_let(f.sigma_, s, tol(s), "a measurement never increases the uncertainty");
  const double lo = x < z ? x : z, hi = x < z ? z : x;
  vc_let(lo, f.x_, tol(1000), "estimate not below prediction and measurement");
  vc_let(f.x_, hi, tol(1000), "estimate not above prediction and measurement");
  vc_cover("end");
}
VC_ENTRY measure_weights()
{
  const double x = vc_r("x", -1000, 1000), s = vc_r("sigma", 1e-3, 1000), z = vc_r("z", -1000, 1000), r = vc_r("sigma_in", 1e-3, 1000);
  KalmanFilter1 f(x, s), g(x, s), h(x, s);
  f.measure(z, r);
  vc_eqt((f.x_ - x) * (s * s + r * r), s * s * (z - x), 1e-6 * (s * s + r * r) * 1000, "the correction is weighted by the squared uncertainties");
  if (s < r)
    vc_let(std::fabs(f.x_ - x), std::fabs(f.x_ - z), 1e-6, "the surer of prediction and measurement weighs more (prediction)");
  if (s > r)
    vc_let(std::fabs(f.x_ - z), std::fabs(f.x_ - x), 1e-6, "the surer of prediction and measurement weighs more (measurement)");
  const double r2 = vc_r("sigma_in2", 1e-3, 1000);
  g.measure(z, r2);
  if (r2 >= r)
  {
    vc_let(std::fabs(g.x_ - x), std::fabs(f.x_ - x), 1e-6, "a less certain measurement moves the estimate less");
    vc_let(f.sigma_, g.sigma_, tol(s), "a less certain measurement leaves more uncertainty");
  }
  vc_cover("end");
}
VC_ENTRY extremes()
{
  const double inf = std::numeric_limits<double>::infinity();
  const double x = vc_r("x", -1000, 1000), s = vc_r("sigma", 0, 1000), z = vc_r("z", -1000, 1000), r = vc_r("sigma_in", 0, 1000);
  KalmanFilter1 f(x, s);
  f.measure(vc_x("any"), inf);
  vc_prove((f.x_ == x) & (f.sigma_ == s), "an infinitely uncertain measurement changes nothing");
  KalmanFilter1 n;
  vc_prove((n.x_ == 0) & std::isinf(n.sigma_), "a new filter knows nothing");
  n.measure(vc_x("any2"), inf);
  vc_prove((n.x_ == 0) & std::isinf(n.sigma_), "nothing is learnt from an infinitely uncertain measurement");
  n.measure(z, r);
  vc_prove((n.x_ == z) & (n.sigma_ == r), "an infinitely uncertain state adopts the measurement");
  KalmanFilter1 m(x, s);
  m.set();
  vc_prove((m.x_ == 0) & std::isinf(m.sigma_), "reset forgets everything");
  m.measure(vc_b("neg") ? -inf : inf, r);
  vc_prove((m.x_ == 0) & (m.sigma_ == r), "an infinite measurement is not adopted");
  m.set(z, r);
  vc_prove((m.x_ == z) & (m.sigma_ == r), "set adopts value and uncertainty");
  if (s > 0)
  {
    KalmanFilter1 p(x, s);
    p.measure(z, 0);
    vc_eqt(p.x_, z, 1e-9 * 1000, "an exact measurement is adopted");
    vc_eqt(p.sigma_, 0, tol(s), "an exact measurement removes the uncertainty");
  }
  vc_cover("end");
}
VC_ENTRY prediction()
{
  const double x = vc_r("x", -1000, 1000), s = vc_r("sigma", 0, 1000), dx = vc_r("dx", -1000, 1000), ds = vc_r("dsigma", 0, 1000);
  KalmanFilter1 f(x, s);
  f.predict(dx, ds);
  vc_eqt(f.x_, x + dx, 0, "a prediction shifts the estimate");
  vc_eqt(f.sigma_, s + ds, 0, "a prediction adds its uncertainty");
  vc_let(s, f.sigma_, 0, "a prediction never removes uncertainty");
  KalmanFilter1 n;
  n.predict(dx, ds);
  vc_prove(std::isinf(n.sigma_), "a prediction of an unknown state leaves it unknown");
  vc_cover("end");
}

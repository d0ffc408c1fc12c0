// Velocity and acceleration limiter.
#include <cmath>
#include <trajectory_tracker/basic_control.h>
#include <vc.h>
using trajectory_tracker::VelAccLimitter;
static const double TOL = 1e-3;

// any state a limiter can be in: the last output, always finite
static VelAccLimitter anyState(const char* n)
{
  VelAccLimitter l;
  l.val_prev_ = (float)vc_r(n, -1000, 1000);
  return l;
}
static bool fin(double x) { return std::isfinite(x); }

struct Lim { float vel, acc, dt; };
static Lim limits()
{
  Lim p;
  p.vel = (float)vc_r("vel", 0, 1000);
  p.acc = (float)vc_r("acc", 0, 1000);
  p.dt = (float)vc_r("dt", 0, 10);
  return p;
}
static void contract(const VelAccLimitter& l, float prev, double req, float r, const Lim& p)
{
  const double da = (double)p.acc * p.dt;
  vc_prove(fin(r), "output is finite");
  vc_prove(l.get() == r, "output is the state of the next step");
  if (std::isnan(req))
  {
    vc_prove(r == 0, "an undefined request gives zero");
    return;
  }
  vc_let(r - prev, da, TOL, "output rises by at most acceleration limit times period");
  vc_let(prev - r, da, TOL, "output falls by at most acceleration limit times period");
  if (std::fabs(prev) <= p.vel)
    vc_let(std::fabs(r), p.vel, TOL, "output stays within the speed limit once within it");
  vc_let(std::fabs(r), std::fmax(std::fabs(prev), p.vel), TOL, "output never exceeds both the speed limit and the previous output");
  if (prev > p.vel)
    vc_prove(r <= std::fmax(p.vel, prev - da) + (vc_native() ? TOL : 0), "above the limit the output slows down as fast as allowed");
  if (prev < -p.vel)
    vc_prove(r >= std::fmin(-p.vel, prev + da) - (vc_native() ? TOL : 0), "below the limit the output slows down as fast as allowed");
}
VC_ENTRY set_step()
{
  VelAccLimitter l = anyState("prev");
  const float prev = l.get();
  const Lim p = limits();
  const float v = (float)vc_x("request");
  const float r = l.set(v, p.vel, p.acc, p.dt);
  contract(l, prev, v, r, p);
  if (!std::isnan(v))
  {
    // the output lies between the previous output and the request clipped to the speed limit, and goes as far as allowed
    const double t = v > p.vel ? p.vel : v < -p.vel ? -p.vel : v;
    const double da = (double)p.acc * p.dt;
    if (std::fabs(t - prev) <= da)
      vc_prove(r == (float)t, "admissible request is followed exactly");
    else if (t > prev)
      vc_eqt(r, prev + da, TOL, "inadmissible higher request is followed as fast as allowed");
    else
      vc_eqt(r, prev - da, TOL, "inadmissible lower request is followed as fast as allowed");
  }
  vc_cover("end");
}
VC_ENTRY increment_step()
{
  VelAccLimitter l = anyState("prev");
  const float prev = l.get();
  const Lim p = limits();
  const float d = (float)vc_x("increment");
  const float r = l.increment(d, p.vel, p.acc, p.dt);
  contract(l, prev, (double)prev + d, r, p);
  if (fin(d) && std::fabs((double)prev + d) <= p.vel && std::fabs(d) <= (double)p.acc * p.dt - (vc_native() ? TOL : 0))
    vc_eqt(r, (double)prev + d, TOL, "admissible increment is applied exactly");
  vc_cover("end");
}
// a new limiter and a cleared one are at rest, so the induction starts inside every limit
VC_ENTRY start()
{
  VelAccLimitter l;
  vc_prove(l.get() == 0, "a new limiter is at rest");
  VelAccLimitter m = anyState("prev");
  m.clear();
  vc_prove(m.get() == 0, "a cleared limiter is at rest");
  vc_cover("end");
}

// Low-pass, high-pass and angular filters.
#include <cmath>
#include <trajectory_tracker/filter.h>
#include <vc.h>
using trajectory_tracker::Filter;
static const double B = 100;   // largest signal value
static double tol() { return 2e-3; }

static float tcon(double lo) { return (float)vc_r("tc", lo, 1000); }
static float sig(const char* n) { return (float)vc_r(n, -B, B); }
static float within(const char* n, float lo, float hi)
{
  const float v = sig(n);
  return v < lo ? lo : v > hi ? hi : v;
}
// any state after any history: the state variable is arbitrary; the output belongs to it
static void anyState(Filter& f, float tc)
{
  f.x_ = (float)vc_r("x", -2 * B * 1001, 2 * B * 1001);
  f.out_ = sig("out");
}
VC_ENTRY lpf_steady()
{
  const float tc = tcon(0), u = sig("u");
  Filter f(Filter::FILTER_LPF, tc, u);
  vc_prove(f.get() == u, "a new filter reports its initial value");
  vc_eqt(f.in(u), u, tol(), "a low-pass filter at rest keeps a constant input");
  vc_eqt(f.in(u), u, tol(), "it keeps it for ever (second sample)");
  vc_prove(f.get() == f.out_, "reported value is the last output");
  const float w = sig("w");
  anyState(f, tc);
  f.set(w);
  vc_prove(f.get() == w, "a reset filter reports the reset value");
  vc_eqt(f.in(w), w, tol(), "a low-pass filter reset to a value keeps it");
  vc_cover("end");
}
VC_ENTRY lpf_step()
{
  // from rest at w, input u: moves towards u without passing it
  const float tc = tcon(0.5), u = sig("u"), w = sig("w");
  Filter f(Filter::FILTER_LPF, tc, w);
  const float r = f.in(u);
  if (u >= w)
  {
    vc_let(w, r, tol(), "output does not move away from a higher input");
    vc_let(r, u, tol(), "output does not pass a higher input");
  }
  else
  {
    vc_let(r, w, tol(), "output does not move away from a lower input");
    vc_let(u, r, tol(), "output does not pass a lower input");
  }
  vc_cover("end");
}
VC_ENTRY lpf_bounded()
{
  // invariant of all histories: the memory corresponds to a value within the range of the signal, so does every output
  const float tc = tcon(0.5), p = sig("lo"), q = sig("hi"), lo = p < q ? p : q, hi = p < q ? q : p;
  const float u = within("u", lo, hi), w = within("w", lo, hi), y = within("y", lo, hi);
  Filter f(Filter::FILTER_LPF, tc, w);
  vc_let(2 * tc * lo, -f.x_, 1 + tc * 1e-3, "initial memory not below the range");
  vc_let(-f.x_, 2 * tc * hi, 1 + tc * 1e-3, "initial memory not above the range");
  f.x_ = -2 * tc * y;
  f.out_ = sig("out");
  const float r = f.in(u);
  vc_let(2 * tc * lo, -f.x_, 1e-2 + tc * 1e-3, "memory stays in the range (below)");
  vc_let(-f.x_, 2 * tc * hi, 1e-2 + tc * 1e-3, "memory stays in the range (above)");
  vc_let(lo, r, tol(), "output never below every input and the initial value");
  vc_let(r, hi, tol(), "output never above every input and the initial value");
  vc_cover("end");
}
VC_ENTRY lpf_converge()
{
  // from any state, a constant input: the error shrinks with every sample and keeps its sign
  const float tc = tcon(0.5), u = sig("u");
  Filter f(Filter::FILTER_LPF, tc, 0);
  anyState(f, tc);
  vc_assume(std::fabs(f.x_) <= 2 * tc * B);
  const double e1 = (double)f.in(u) - u, e2 = (double)f.in(u) - u;
  vc_eqt(e2 * (1.0 + 2.0 * tc), e1 * (2.0 * tc - 1.0), tol() * (1 + 2 * tc), "the error of a low-pass filter shrinks by the pole in every sample");
  vc_cover("end");
}
VC_ENTRY hpf_constant()
{
  const float tc = tcon(0), u = sig("u");
  Filter f(Filter::FILTER_HPF, tc, 0);
  vc_prove(f.get() == 0, "a new high-pass filter reports its initial value");
  anyState(f, tc);
  vc_assume(std::fabs(f.x_) <= 2 * tc * B + B);
  const double e1 = f.in(u), e2 = f.in(u);
  vc_eqt(e2 * (1.0 + 2.0 * tc), e1 * (2.0 * tc - 1.0), tol() * (1 + 2 * tc), "a constant input decays from the output of a high-pass filter");
  vc_cover("end");
}
VC_ENTRY hpf_reset()
{
  // reset to zero, then constant zero: stays zero; and linearity in the input
  const float tc = tcon(0.5), u = sig("u");
  Filter f(Filter::FILTER_HPF, tc, 0);
  vc_eqt(f.in(0), 0, 1e-6, "a high-pass filter at rest stays at rest");
  f.set(0);
  const double r = f.in(u);
  vc_let(std::fabs(r), std::fabs(u), tol(), "the output of a high-pass filter does not exceed the step of the input");
  vc_prove(r * u >= -1e-3, "the output of a high-pass filter has the sign of the step");
  vc_cover("end");
}
VC_ENTRY angular()
{
  const float tc = tcon(0.5), u = (float)vc_r("u", -20, 20);
  const long k = vc_i("turns", -3, 3);
  Filter f(Filter::FILTER_LPF, tc, 0, true), g(Filter::FILTER_LPF, tc, 0, true);
  f.x_ = g.x_ = (float)vc_r("x", -100, 100);
  f.out_ = g.out_ = (float)vc_r("out", -20, 20);
  const double out = f.out_;
  const double d = u - out;
  const double h = d - 2 * M_PI * std::floor(d / (2 * M_PI));   // 0..turn
  vc_assume(std::fabs(h - M_PI) > 1e-3);                          // not exactly opposite
  const double v = u + 2 * M_PI * (double)k;
  const double a = f.in(u), b = g.in((float)v);
  vc_eqt(a, b, 1e-3, "an angular filter treats inputs whole turns apart as equal");
  vc_eqt(f.x_, g.x_, 1e-2, "an angular filter remembers inputs whole turns apart as equal");
  vc_cover("end");
}
VC_ENTRY angular_step()
{
  // from rest at w: moves along the shorter way, never passing the input
  const float tc = tcon(0.5), w = (float)vc_r("w", -20, 20);
  const double s = vc_r("shortest", -3.14, 3.14);   // signed shorter way from w to the input
  const double u = w + s + 2 * M_PI * (double)vc_i("turns", -3, 3);
  Filter f(Filter::FILTER_LPF, tc, w, true);
  const double r = f.in((float)u);
  vc_let((r - w) * (s < 0 ? -1 : 1), std::fabs(s), 1e-3, "an angular filter does not pass the input on the shorter way");
  vc_let(0, (r - w) * (s < 0 ? -1 : 1), 1e-3, "an angular filter takes the shorter way");
  vc_cover("end");
}

// Bayes filter of the obstacle memory.
#include <cmath>
#include <planner_cspace/bbf.h>
#include <vc.h>
using namespace planner_cspace::bbf;
static const double TOL = 1e-5;

// any state the filter can be in after an update, or any initial value
static BinaryBayesFilter anyState(const char* n) { return BinaryBayesFilter((float)vc_r(n, MIN_ODDS, MAX_ODDS)); }

VC_ENTRY update_bounds()
{
  BinaryBayesFilter f((float)vc_r("initial", 0, 1e6));
  const float o = (float)vc_r("o", 0, 1e6);
  const float r = f.update(o);
  vc_prove((f.get() >= MIN_ODDS) & (f.get() <= MAX_ODDS), "odds stay between the minimum and maximum odds");
  vc_prove(r == f.get(), "update returns the stored odds");
  vc_cover("end");
}
VC_ENTRY update_value()
{
  BinaryBayesFilter f = anyState("state");
  const double s = f.get();
  const float o = (float)vc_r("o", 0, 1e6);
  f.update(o);
  const double w = s * (double)o;
  if (w < MIN_ODDS)
    vc_eq(f.get(), MIN_ODDS, "odds saturate at the minimum");
  else if (w > MAX_ODDS)
    vc_eq(f.get(), MAX_ODDS, "odds saturate at the maximum");
  else
    vc_eqt(f.get(), w, 1e-5, "unsaturated odds are the product of the evidence");
  vc_cover("end");
}
VC_ENTRY update_monotone()
{
  BinaryBayesFilter f = anyState("state"), g = f, k = anyState("other");
  const double s = f.get(), t = k.get();
  const float o = (float)vc_r("o", 0, 1e6), p = (float)vc_r("p", 0, 1e6);
  f.update(o);
  if (o >= 1)
    vc_prove(f.get() >= s, "evidence for an obstacle never lowers the odds");
  if (o <= 1)
    vc_prove(f.get() <= s, "evidence against an obstacle never raises the odds");
  g.update(p);
  if (p >= o)
    vc_prove(g.get() >= f.get(), "stronger evidence never gives lower odds");
  k.update(o);
  if (t >= s)
    vc_prove(k.get() >= f.get(), "the update preserves the order of beliefs");
  vc_cover("end");
}
VC_ENTRY probability()
{
  const BinaryBayesFilter f = anyState("state"), g = anyState("other");
  const double p = f.getProbability(), q = f.getNormalizedProbability();
  vc_let(MIN_PROBABILITY - TOL, p, 1e-6, "probability not below the minimum");
  vc_let(p, MAX_PROBABILITY + TOL, 1e-6, "probability not above the maximum");
  vc_let(-TOL, q, 1e-6, "normalised probability not below 0");
  vc_let(q, 1 + TOL, 1e-6, "normalised probability not above 1");
  vc_eqt(p * (1 + (double)f.get()), f.get(), 1e-5, "probability is odds / (1 + odds)");
  if (g.get() > f.get())
  {
    vc_let(p, g.getProbability(), 1e-6, "probability grows with the odds");
    vc_let(q, g.getNormalizedProbability(), 1e-6, "normalised probability grows with the odds");
  }
  vc_eqt(q * (MAX_PROBABILITY - MIN_PROBABILITY), p - MIN_PROBABILITY, 1e-5, "normalised probability is the linear rescaling of the probability");
  vc_cover("end");
}
VC_ENTRY conversions()
{
  const float p = (float)vc_r("p", 0, 0.999);
  const float o = probabilityToOdds(p);
  vc_prove(o >= 0, "odds of a probability are not negative");
  vc_eqt(oddsToProbability(o), p, 1e-4, "probability -> odds -> probability is the identity");
  const float o2 = (float)vc_r("odds", 0, 1e3);
  const float p2 = oddsToProbability(o2);
  vc_prove((p2 >= 0) & (p2 <= 1), "probability of odds lies in 0..1");
  vc_eqt(p2 * (1.0 + o2), o2, 1e-3, "odds -> probability is odds / (1 + odds)");
  // the limits are consistent with each other
  vc_let(fabs(oddsToProbability(MIN_ODDS) - MIN_PROBABILITY), TOL, 0, "minimum odds match the minimum probability");
  vc_let(fabs(oddsToProbability(MAX_ODDS) - MAX_PROBABILITY), TOL, 0, "maximum odds match the maximum probability");
  vc_prove((MIN_PROBABILITY > 0) & (MIN_PROBABILITY < MAX_PROBABILITY) & (MAX_PROBABILITY < 1), "limits are ordered");
  vc_cover("end");
}

// Remembering a costmap: which memory cells are updated, and how.  Refreshing the remembered costmap.
#include <algorithm>
#include <cmath>
#include <functional>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/bbf.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/src/costmap_bbf.cpp>
#include <vc.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> Vec;
typedef CyclicVecInt<2, 2> Vec2;
static const long DMAX = 1 << 12, RMAX = 2896, CMAX = 1 << 20;
static const float LO = bbf::MIN_ODDS, HI = bbf::MAX_ODDS;

struct State
{
  CostmapBBFImpl m;
  Vec s;
  Vec2 q, h;
  State() {}
};
static int pct(float odds) { return std::lround(bbf::BinaryBayesFilter(odds).getNormalizedProbability() * 100.0); }

// any reachable state (q: the cell looked at)
static void anyState(State& t)
{
  t.s[0] = vc_sz("s0", 1, DMAX);
  t.s[1] = vc_sz("s1", 1, DMAX);
  t.s[2] = vc_sz("s2", 1, 64);
  t.m.reset(t.s);
  t.h[0] = t.s[0];
  t.h[1] = t.s[1];
  vc_map<float>(t.m.cm_hist_bbf_, t.h, 2, "odds", LO, HI);
  vc_map<char>(t.m.cm_hist_, t.h, 2, "cost", 0, 100);
  t.q[0] = vc_i("q0", 0, t.s[0] - 1);
  t.q[1] = vc_i("q1", 0, t.s[1] - 1);
  // the area still to be refreshed: never outside the map, or empty
  for (int i = 0; i < 2; i++)
  {
    t.m.updated_min_[i] = vc_i("umin", 0, t.s[i]);
    t.m.updated_max_[i] = vc_i("umax", -1, t.s[i] - 1);
  }
}
static bool area(const State& t)
{
  return (t.m.updated_min_[0] >= 0) & (t.m.updated_min_[1] >= 0) & (t.m.updated_max_[0] < t.s[0]) & (t.m.updated_max_[1] < t.s[1]);
}
static bool pending(const State& t)
{
  return (t.m.updated_min_[0] <= t.q[0]) & (t.q[0] <= t.m.updated_max_[0]) & (t.m.updated_min_[1] <= t.q[1]) & (t.q[1] <= t.m.updated_max_[1]);
}
// state invariant at q: outside the area to be refreshed the cost reflects the odds
static bool synced(State& t) { return t.m.cm_hist_[t.q] == pct(t.m.cm_hist_bbf_[t.q].get()); }

static void checkRemember(const bool p07)
{
  State t;
  anyState(t);
  BlockMemGridmap<char, 3, 2> cm;
  Vec cs = t.s;
  cs[2] = vc_sz("cs2", 1, 64);
  cm.reset(cs);
  vc_map<char>(cm, cs, 3, "seen", -1, 100);
  Vec c;
  c[0] = vc_i("c0", -CMAX, CMAX);
  c[1] = vc_i("c1", -CMAX, CMAX);
  c[2] = vc_i("c2", -100, 100);
  const int rmin = vc_i("rmin", 0, RMAX), rmax = vc_sz("rmax", 0, RMAX);
  const float hit = (float)vc_r("hit", 0, 1e3), miss = (float)vc_r("miss", 0, 1e3);
  const Vec2 q = t.q;
  const long dx = (long)q[0] - c[0], dy = (long)q[1] - c[1];
  const bool in = (dx >= -rmax) & (dx <= rmax) & (dy >= -rmax) & (dy <= rmax);
  Vec q3;
  q3[0] = q[0];
  q3[1] = q[1];
  q3[2] = 0;
  const int seen = cm[q3];
  const float old = t.m.cm_hist_bbf_[q].get();
  bbf::BinaryBayesFilter f(old);
  bool touched = false;
  if (in)
  {
    const long d2 = dx * dx + dy * dy;
    const bool circle = d2 <= (long)rmax * rmax;
    if (circle & (seen >= 0))
    {
      if (seen < 100)
      {
        touched = true;
        f.update(miss);
      }
      else if (d2 >= (long)rmin * rmin)
      {
        touched = true;
        f.update(hit);
      }
    }
  }
  const float nv = f.get();
  const char cost = t.m.cm_hist_[q];
  const bool sync0 = synced(t), pend0 = pending(t);
  if (p07)
  {
    vc_fill<float>(*(float*)&t.m.cm_hist_bbf_[q], nv, touched, dx, dy, 0);
    t.m.remember(&cm, c, hit, miss, rmin, rmax);
    vc_prove(t.m.cm_hist_bbf_[q].get() == (touched ? nv : old), "each observed cell is updated exactly once with its evidence, all others keep their odds");
    vc_prove(cm[q3] == seen, "the costmap that is remembered is not changed");
  }
  else
  {
    vc_fill<float>(*(float*)&t.m.cm_hist_bbf_[q], nv, touched, dx, dy, 0);
    t.m.remember(&cm, c, hit, miss, rmin, rmax);
    vc_prove(area(t), "the area to refresh stays inside the map");
    vc_prove(!pend0 | pending(t), "an area still to be refreshed is not forgotten");
    vc_prove(!(sync0 | pend0) | synced(t) | pending(t), "a cell whose odds changed is in the area to refresh");
    vc_prove(t.m.cm_hist_[q] == cost, "remembering does not touch the costs");
  }
  vc_prove((t.m.size_[0] == t.s[0]) & (t.m.size_[1] == t.s[1]), "the size is unchanged");
  vc_cover("end");
}
VC_ENTRY remember() { checkRemember(true); }
VC_ENTRY remember_area() { checkRemember(false); }
VC_ENTRY refresh()
{
  State t;
  anyState(t);
  const Vec2 q = t.q;
  const bool p = pending(t);
  const float odds = t.m.cm_hist_bbf_[q].get();
  const char nv = pct(odds), old = t.m.cm_hist_[q];
  vc_assume(p | (nv == old));
  vc_fill<char>(t.m.cm_hist_[q], nv, p, q[0], q[1], 0);
  t.m.updateCostmap();
  Vec q3;
  q3[0] = q[0];
  q3[1] = q[1];
  q3[2] = vc_i("qa", 0, 100);
  const char r = t.m.getCost(q3);
  vc_prove(r == nv, "after a refresh the cost is the rounded percentage of the obstacle probability");
  vc_prove((r >= 0) & (r <= 100), "remembered costs lie in 0..100");
  vc_prove(t.m.cm_hist_bbf_[q].get() == odds, "a refresh does not change the memory");
  vc_prove(area(t), "the area to refresh stays inside the map");
  vc_prove(!pending(t), "nothing remains to be refreshed");
  vc_cover("end");
}
// initial states: reset and clear establish the invariant
static void fresh(State& t)
{
  Vec q3;
  q3[0] = t.q[0];
  q3[1] = t.q[1];
  q3[2] = 0;
  vc_prove(t.m.cm_hist_bbf_[t.q].get() == LO, "a cleared memory holds the minimum odds");
  vc_prove(t.m.getCost(q3) == 0, "a cleared memory has no cost");
  vc_prove(synced(t) | pending(t), "a cleared memory is in sync or entirely to be refreshed");
  vc_prove(area(t), "the area to refresh stays inside the map");
  vc_prove((t.m.size_[0] == t.s[0]) & (t.m.size_[1] == t.s[1]), "the size is the one given");
}
VC_ENTRY clear_memory()
{
  State t;
  anyState(t);
  t.m.clear();
  fresh(t);
  vc_cover("end");
}
VC_ENTRY reset_memory()
{
  State t;
  anyState(t);
  t.s[0] = vc_sz("n0", 1, DMAX);
  t.s[1] = vc_sz("n1", 1, DMAX);
  t.q[0] = vc_i("p0", 0, t.s[0] - 1);
  t.q[1] = vc_i("p1", 0, t.s[1] - 1);
  t.m.reset(t.s);
  fresh(t);
  vc_cover("end");
}
// enumeration: the callback counts the visits of the cell q
static Vec2 g_q, g_s;
static int g_hits;
static CostmapBBFImpl* g_m;
VC_ENTRY for_each()
{
  State t;
  anyState(t);
  g_q = t.q;
  g_m = &t.m;
  g_s = t.h;
  g_hits = 0;
  const float odds = t.m.cm_hist_bbf_[t.q].get();
  vc_fill<int>(g_hits, 1, true, t.q[0], t.q[1], 0);
  t.m.forEach([](const Vec& p, bbf::BinaryBayesFilter& b)
              {
                vc_prove((p[0] >= 0) & (p[0] < g_s[0]) & (p[1] >= 0) & (p[1] < g_s[1]) & (p[2] == 0), "enumerated positions lie in the map");
                const bool me = (p[0] == g_q[0]) & (p[1] == g_q[1]);
                if (me)
                {
                  ++g_hits;
                  vc_prove(&b == &g_m->cm_hist_bbf_[g_q], "a position is enumerated with its own state");
                }
              });
  vc_prove(g_hits == 1, "every cell is enumerated exactly once");
  vc_prove(t.m.cm_hist_bbf_[t.q].get() == odds, "enumeration does not change the memory");
  vc_cover("end");
}

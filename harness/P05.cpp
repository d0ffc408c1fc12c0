// Move cost, move set and heuristic of the two-joint planner.
#include <algorithm>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/chrono.hpp>
#include <planner_cspace/reservable_priority_queue.h>
#include <vcstl.h>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/grid_astar_model.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include <planner_cspace/src/grid_astar_model_2dof_joints.cpp>
#include <vc.h>
using namespace planner_cspace;
typedef planner_2dof_serial_joints::GridAstarModel2DoFSerialJoint Model;
typedef Model::Vec Vec;
typedef Model::Vecf Vecf;
typedef BlockMemGridmap<char, 2, 0, 0x20> Map;
static const double TOL = 1e-3;

// joint difference the short way round, cell of one turn (contract of cycle and cycleUnsigned: P03)
static Vec shortest(const Vec& a, const Vec& b, int R)
{
  Vec d;
  d[0] = b[0] - a[0];
  d[1] = b[1] - a[1];
  d.cycle(R, R);
  return d;
}
struct Env
{
  Map cm;
  int R;
  Vecf coef;
  planner_2dof_serial_joints::CostCoeff cc;
  Vec q;     // an arbitrary cell of one turn
};
static void env(Env& e, long maxcost)
{
  e.R = vc_sz("resolution", 2, 1024);
  e.cm.reset(Vec(e.R * 2, e.R * 2));
  vc_map<char>(e.cm, e.cm.size(), 2, "cost", 0, maxcost);
  e.coef[0] = (float)vc_r("coef0", -100, 100);
  e.coef[1] = (float)vc_r("coef1", -100, 100);
  e.cc.weight_cost_ = (float)vc_r("weight", 0, 1000);
  e.cc.expand_ = 0;
}
static double weighted(const Env& e, long a, long b) { return std::fabs((double)e.coef[0] * a) + std::fabs((double)e.coef[1] * b); }
static Vec anyCell(const Env& e, const char* n0, const char* n1)
{
  Vec p;
  p[0] = vc_i(n0, 0, 2 * e.R - 1);
  p[1] = vc_i(n1, 0, 2 * e.R - 1);
  return p;
}
VC_ENTRY move_outside()
{
  Env e;
  env(e, 127);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  const Vec cur = anyCell(e, "cur0", "cur1");
  Vec next;
  next[0] = vc_i("next0", -4096, 4096);
  next[1] = vc_i("next1", -4096, 4096);
  vc_assume((0 > next[0]) | (next[0] >= 2 * e.R) | (0 > next[1]) | (next[1] >= 2 * e.R));
  const float c = m.cost(cur, next, std::vector<Model::VecWithCost>(), next);
  vc_prove(c < 0, "a move that ends out of range is rejected");
  vc_cover("end");
}
VC_ENTRY move_rejected()
{
  Env e;
  env(e, 127);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  const Vec cur = anyCell(e, "cur0", "cur1"), next = anyCell(e, "next0", "next1");
  const Vec d = shortest(cur, next, e.R);
  const long d0 = d[0], d1 = d[1];
  const int dist = std::hypot((float)d0, (float)d1);
  // sample i of the way: the cell nearest to the i-th of dist equal steps from the cell left
  const long i = vc_skolem("sample", 0, 2048);
  vc_assume(i < dist);
  const double w0 = cur[0] + (double)i * ((double)d0 / dist), w1 = cur[1] + (double)i * ((double)d1 / dist);
  if (vc_native())
    vc_assume((std::fabs(w0 - std::floor(w0) - 0.5) > 1e-3) & (std::fabs(w1 - std::floor(w1) - 0.5) > 1e-3));
  Vec s;
  s[0] = std::lround(w0);
  s[1] = std::lround(w1);
  s.cycleUnsigned(e.R, e.R);
  const bool obstacle = e.cm[s] > 99;
  const float c = m.cost(cur, next, std::vector<Model::VecWithCost>(), next);
  if (obstacle)
    vc_prove(c < 0, "a move through an obstacle is rejected");
  vc_cover("end");
}
VC_ENTRY move_cost()
{
  Env e;
  env(e, 127);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  const Vec cur = anyCell(e, "cur0", "cur1"), next = anyCell(e, "next0", "next1");
  const Vec d = shortest(cur, next, e.R);
  const long d0 = d[0], d1 = d[1];
  const float c = m.cost(cur, next, std::vector<Model::VecWithCost>(), next);
  if (c >= 0)
    vc_let(weighted(e, d0, d1), c, TOL * (1 + std::fabs(c)), "the cost of a move includes the weighted joint distance the short way round");
  else
    vc_prove(c == -1, "the cost is negative only as a rejection");
  vc_cover("end");
}
VC_ENTRY move_free()
{
  // no obstacle anywhere: every move inside the range is accepted, at least at the weighted joint distance, at most with the largest map cost
  Env e;
  env(e, 99);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  const Vec cur = anyCell(e, "cur0", "cur1"), next = anyCell(e, "next0", "next1");
  const Vec d = shortest(cur, next, e.R);
  const long d0 = d[0], d1 = d[1];
  const float c = m.cost(cur, next, std::vector<Model::VecWithCost>(), next);
  const double w = weighted(e, d0, d1);
  vc_let(w, c, TOL * (1 + w), "without obstacles a move inside the range is accepted");
  vc_cover("end");
}
VC_ENTRY move_empty()
{
  Env e;
  env(e, 0);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  const Vec cur = anyCell(e, "cur0", "cur1"), next = anyCell(e, "next0", "next1");
  const Vec d = shortest(cur, next, e.R);
  const long d0 = d[0], d1 = d[1];
  const float c = m.cost(cur, next, std::vector<Model::VecWithCost>(), next);
  const double w = weighted(e, d0, d1);
  vc_eqt(c, w, TOL * (1 + w), "on an empty map the cost is the weighted joint distance");
  vc_cover("end");
}
VC_ENTRY estimate()
{
  Env e;
  env(e, 127);
  const Model m(e.coef, e.R, e.cm, e.cc, 0);
  Vec cur, goal;
  for (int i = 0; i < 2; i++)
  {
    cur[i] = vc_i("cur", -4096, 4096);
    goal[i] = vc_i("goal", -4096, 4096);
  }
  const float h = m.costEstim(cur, goal);
  const double w = weighted(e, (long)goal[0] - cur[0], (long)goal[1] - cur[1]);
  vc_prove(h >= 0, "the estimate is never negative");
  vc_eqt(h, w, TOL * (1 + w), "the estimate is the weighted joint distance");
  vc_cover("end");
}
static const std::vector<Vec>* gl;
static long gj, gr, ga, gb;
static bool elemOk()
{
  if (vc_native() && gj >= (long)gl->size())
    return true;
  const Vec* p = gl->data() + gj;
  return (gj >= (long)gl->size()) | ((-gr <= (*p)[0]) & ((*p)[0] <= gr) & (-gr <= (*p)[1]) & ((*p)[1] <= gr));
}
VC_ENTRY moves()
{
  Env e;
  e.R = vc_sz("resolution", 2, 1024);
  const int range = vc_sz("range", 0, 512);
  gr = range;
  gj = vc_i("j", 0, 1 << 22);
  alignas(Model) static char raw[sizeof(Model)];
  Model& m = *reinterpret_cast<Model*>(raw);
  gl = &m.search_list_;
  vc_hint(elemOk);
  new (&m) Model(e.coef, e.R, e.cm, e.cc, range);
  const std::vector<Vec>& l = m.searchGrids(Vec(0, 0), std::vector<Model::VecWithCost>(), Vec(0, 0));
  vc_prove(&l == gl, "the offered moves are the list built at construction");
  if (gj < (long)l.size())
    vc_prove(elemOk(), "every offered move stays within the configured range");
  vc_cover("end");
}

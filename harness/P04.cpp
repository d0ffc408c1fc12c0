// Path search.  Proof build: containers by element invariant; native build: the real library on small random models.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/chrono.hpp>
#include <omp.h>
#include <vc.h>
#ifdef VC_PROOF
#include <vcbag.h>
static long gPushed;          // how often the tracked cell was put into the path
namespace std
{
// a path under construction: its ends, and how often it visits the tracked cell
template <class T, class A = int>
class vc_path
{
public:
  size_t n_;
  long seen_;
  T front_, back_;
  typedef size_t size_type;
  vc_path() : n_(0), seen_(0) {}
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void clear() { n_ = 0; seen_ = 0; }
  const T& front() const { vc_prove(n_ > 0, "front of a non-empty path"); return front_; }
  const T& back() const { vc_prove(n_ > 0, "back of a non-empty path"); return back_; }
  void push_front(const T& t);
  void emplace_front(const T& t) { push_front(t); }
};
}  // namespace std
#define vector vc_bag
#define priority_queue vc_pq
#define unordered_map vc_umap
#define list vc_path
#endif
#include <planner_cspace/reservable_priority_queue.h>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#ifdef VC_PROOF
#define shared_ptr vc_shared
#define function vc_fn
#endif
#include <planner_cspace/grid_astar_model.h>
#include <planner_cspace/grid_astar.h>
using namespace planner_cspace;
#ifndef VC_D
#define VC_D 3
#define VC_N 2
#endif
typedef GridAstar<VC_D, VC_N> Astar;
typedef GridAstarModelBase<VC_D, VC_N> Base;
typedef Astar::Vec Vec;
typedef Astar::VecWithCost Start;

static Vec gS;            // map size
static Vec gE;            // goal, orientation of one turn
static Vec gC;            // an arbitrary cell
static long gJ;           // an arbitrary start
static long at(const Vec& v, int i) { return i < VC_D ? v[i] : 0; }
static bool inMap(const Vec& v)
{
  bool r = true;
  for (int i = 0; i < VC_D; i++)
    r = r & (0 <= v[i]) & (v[i] < gS[i]);
  return r;
}
static bool same(const Vec& a, const Vec& b)
{
  bool r = true;
  for (int i = 0; i < VC_D; i++)
    r = r & (a[i] == b[i]);
  return r;
}
static Vec wrapped(Vec v)
{
  v.cycleUnsigned(gS);
  return v;
}
// the motion model: arbitrary functions
static double costOf(const Vec& p, const Vec& n)
{
  return vc_uf_r_("cost", -1, FLT_MAX, at(p, 0), at(p, 1), at(p, 2), at(n, 0), at(n, 1), at(n, 2));
}
static double estimOf(const Vec& p)
{
#ifdef VC_NATIVE
  return vc_uf_r_("estimate", -1, 1e9, at(p, 0), at(p, 1), at(p, 2), at(gE, 0), at(gE, 1), at(gE, 2));
#endif
  return vc_uf_r_("estimate", -1, 1e9, at(p, 0), at(p, 1), at(p, 2), 0, 0, 0);
}
static bool unreachable(const Vec& p)
{
  return vc_uf_b_("unreachable", at(p, 0), at(p, 1), at(p, 2), 0, 0, 0);
}
#ifdef VC_PROOF
// some element of the move list of p, added to p, is n
static bool offered(const Vec& p, const Vec& n)
{
  return vc_uf_b_("offered", at(p, 0), at(p, 1), at(p, 2), at(n, 0), at(n, 1), at(n, 2));
}
// v is a start with its orientation brought to one turn
static bool isStart(const Vec& v)
{
  return vc_uf_b_("start", at(v, 0), at(v, 1), at(v, 2), 0, 0, 0);
}
static bool edge(const Vec& p, const Vec& n)
{
  const double c = costOf(p, n);
  return inMap(p) & inMap(n) & offered(p, n) & (0 <= c) & (c < FLT_MAX);
}
// remaining cost estimated for v
static bool remains(const Vec& v, double r)
{
  return !unreachable(v) & (r == estimOf(v)) & (r >= 0);
}
enum { T_CELLS = 0, T_MOVES = 1, T_GIVEN = 2 };
template <> struct vc_elem<Vec>
{
  static Vec make(long v, long i)
  {
    Vec r;
    for (int j = 0; j < VC_D; j++)
      r[j] = vc_uf_i_(j == 0 ? "vec0" : j == 1 ? "vec1" : "vec2", -1 << 28, 1 << 28, v, i, 0, 0, 0, 0);
    return r;
  }
  static bool inv(const Vec& t, const vc_tag& g)
  {
    if (g.kind == T_MOVES)
    {
      Vec p, n;
      const long q[3] = {g.a, g.b, g.c};
      for (int j = 0; j < VC_D; j++)
      {
        p[j] = q[j];
        n[j] = q[j] + t[j];
      }
      return offered(p, wrapped(n));
    }
    return inMap(t);
  }
  static const char* label() { return "a cell kept by the search lies inside the map"; }
};
template <> struct vc_elem<Start>
{
  static Start make(long v, long i)
  {
    Vec r;
    for (int j = 0; j < VC_D; j++)
      r[j] = vc_uf_i_(j == 0 ? "start0" : j == 1 ? "start1" : "start2", -1 << 28, 1 << 28, v, i, 0, 0, 0, 0);
    return Start(r, (float)vc_uf_r_("startcost", 0, 1e30, v, i, 0, 0, 0, 0));
  }
  static bool inv(const Start& t, const vc_tag& g)
  {
    if (g.kind == T_GIVEN)
    {
      const Vec w = wrapped(t.v_);
      return inMap(w) & isStart(w);
    }
    return inMap(t.v_) & isStart(t.v_);
  }
  static const char* label() { return "a start kept by the search is a given start with its orientation of one turn"; }
};
template <> struct vc_elem<Astar::PriorityVec>
{
  static Astar::PriorityVec make(long v, long i)
  {
    Vec r;
    for (int j = 0; j < VC_D; j++)
      r[j] = vc_uf_i_(j == 0 ? "queued0" : j == 1 ? "queued1" : "queued2", -1 << 28, 1 << 28, v, i, 0, 0, 0, 0);
    return Astar::PriorityVec((float)vc_uf_r_("queued.p", -1e38, 1e38, v, i, 0, 0, 0, 0), (float)vc_uf_r_("queued.raw", -1e38, 1e38, v, i, 0, 0, 0, 0), r);
  }
  static bool inv(const Astar::PriorityVec& t, const vc_tag&) { return inMap(t.v_) & remains(t.v_, (double)t.p_ - t.p_raw_); }
  static const char* label() { return "a queued cell lies inside the map and carries its estimated remaining cost"; }
};
template <> struct vc_elem<Astar::GridmapUpdate>
{
  static Astar::GridmapUpdate make(long v, long i)
  {
    Vec p, n;
    for (int j = 0; j < VC_D; j++)
    {
      p[j] = vc_uf_i_(j == 0 ? "from0" : j == 1 ? "from1" : "from2", -1 << 28, 1 << 28, v, i, 0, 0, 0, 0);
      n[j] = vc_uf_i_(j == 0 ? "to0" : j == 1 ? "to1" : "to2", -1 << 28, 1 << 28, v, i, 0, 0, 0, 0);
    }
    return Astar::GridmapUpdate(p, n, (float)vc_uf_r_("update.p", -1e38, 1e38, v, i, 0, 0, 0, 0), (float)vc_uf_r_("update.raw", -1e38, 1e38, v, i, 0, 0, 0, 0));
  }
  static bool inv(const Astar::GridmapUpdate& t, const vc_tag&)
  {
    return edge(t.p0_, t.p1_) & remains(t.p1_, (double)t.cost_estim_ - t.cost_);
  }
  static const char* label() { return "an update is a move of the model between cells of the map with a non-negative finite cost"; }
};
typedef std::vc_umap<Vec, Vec, Vec>::pair_t Parent;
template <> struct vc_elem<Parent>
{
  static bool has(long v, const Vec& k) { return vc_uf_b_("has parent", v, at(k, 0), at(k, 1), at(k, 2), 0, 0); }
  static Vec value(long v, const Vec& k)
  {
    Vec r;
    for (int j = 0; j < VC_D; j++)
      r[j] = vc_uf_i_(j == 0 ? "parent0" : j == 1 ? "parent1" : "parent2", -1 << 28, 1 << 28, v, at(k, 0), at(k, 1), at(k, 2), 0, 0);
    return r;
  }
  static bool inv(const Vec& k, const Vec& v) { return edge(v, k); }
  static const char* label() { return "the recorded parent reaches its cell by a move of the model with a non-negative finite cost"; }
};
template <> struct vc_key<Vec>
{
  static bool is(const Vec& k) { return same(k, gC); }
};
template <class T, class A>
void std::vc_path<T, A>::push_front(const T& t)
{
  vc_prove((n_ == 0) | edge(t, front_), "consecutive cells of the path are a move of the model with a non-negative finite cost");
  if (n_ == 0)
    back_ = t;
  vc_assume(n_ < (1UL << 40));
  front_ = t;
  ++n_;
  seen_ += same(t, gC);
}
#endif

class Model : public Base
{
public:
  std::vector<Vec> list_;
#ifdef VC_NATIVE
  mutable std::vector<std::vector<Vec>> lists_;
  mutable std::vector<Vec> cells_;
#endif
  float cost(const Vec& p, const Vec& n, const std::vector<Start>&, const Vec& g) const override
  {
    vc_prove(inMap(p) & inMap(n) & same(g, gE), "the model is asked for moves inside the map towards the goal");
#ifdef VC_NATIVE
    const double c = costOf(p, n) / FLT_MAX;
    return c < 0.2 ? -1 : c > 0.9 ? FLT_MAX : c * 8;
#else
    return costOf(p, n);
#endif
  }
  float costEstim(const Vec& p, const Vec& g) const override
  {
    vc_prove(inMap(p) & same(g, gE), "the model is asked for estimates inside the map towards the goal");
#ifdef VC_NATIVE
    return remain(p);
#else
    return unreachable(p) ? FLT_MAX : estimOf(p);
#endif
  }
  static float remain(const Vec& p) { return unreachable(p) && (estimOf(p) > 0.5e9) ? FLT_MAX : estimOf(p) / 1e9 * 5 - 0.2; }
  const std::vector<Vec>& searchGrids(const Vec& p, const std::vector<Start>&, const Vec& g) const override
  {
    vc_prove(inMap(p) & same(g, gE), "the model is asked for moves from inside the map towards the goal");
#ifdef VC_NATIVE
    for (size_t i = 0; i < cells_.size(); i++)
      if (same(cells_[i], p))
        return lists_[i];
    cells_.push_back(p);
    lists_.push_back(std::vector<Vec>());
    std::vector<Vec>& l = lists_.back();
    const long n = vc_uf_i_("moves", 0, 6, at(p, 0), at(p, 1), at(p, 2), 0, 0, 0);
    for (long k = 0; k < n; k++)
    {
      Vec d;
      for (int j = 0; j < VC_D; j++)
        d[j] = vc_uf_i_("move", -2, 2, at(p, 0), at(p, 1), at(p, 2), j, k, 0);
      l.push_back(d);
    }
    return l;
#else
    Model& m = const_cast<Model&>(*this);
    m.list_.ver_ = vc_fresh_();
    m.list_.n_ = vc_i("moves", 0, 1L << 40);
    m.list_.dirty_ = false;
    m.list_.tag_ = vc_tag{T_MOVES, at(p, 0), at(p, 1), at(p, 2)};
    return list_;
#endif
  }
};

static Vec anyVec(const char* n0, const char* n1, const char* n2, long lo, long hi)
{
  Vec v;
  v[0] = vc_i(n0, lo, hi);
  v[1] = vc_i(n1, lo, hi);
  if (VC_D > 2)
    v[VC_D - 1] = vc_i(n2, lo, hi);
  return v;
}
struct Env
{
  std::vector<Start> starts;
  Vec goal;
  bool none;
};
static void env(Env& e, bool sized = false)
{
  if (!sized)
  {
  gS[0] = vc_sz("width", 1, 1 << 14);
  gS[1] = vc_sz("height", 1, 1 << 14);
  if (VC_D > 2)
    gS[VC_D - 1] = vc_sz("angles", 1, 1 << 10);
  vc_assume((!vc_native()) | ((long)gS[0] * gS[1] * (VC_D > 2 ? gS[VC_D - 1] : 1) <= 200));
  }
#ifdef VC_NATIVE
  const long n = vc_i("starts", 0, 3);
  for (long i = 0; i < n; i++)
  {
    Vec v = anyVec("start0", "start1", "start2", 0, 13);
    v[0] %= gS[0];
    v[1] %= gS[1];
    e.starts.emplace_back(v, (float)vc_r("startcost", 0, 3));
  }
  e.goal = anyVec("goal0", "goal1", "goal2", 0, 13);
#else
  e.starts.n_ = vc_i("starts", 0, 1L << 40);
  e.starts.tag_ = vc_tag{T_GIVEN, 0, 0, 0};
  e.goal = anyVec("goal0", "goal1", "goal2", -1 << 28, 1 << 28);
  gC = anyVec("tracked0", "tracked1", "tracked2", -1 << 28, 1 << 28);
#endif
  gE = wrapped(e.goal);
}
struct Progress
{
  bool operator()(const std::list<Vec>&, const SearchStats&) const { return vc_b("continue"); }
};
// a search object in any state earlier searches may have left
static void any(Astar& a)
{
  a.setSearchTaskNum(vc_sz("tasks", 0, 1 << 20));
  a.setQueueSizeLimit(vc_b("limited") ? vc_sz("limit", 0, 1 << 20) : 0);
#ifdef VC_NATIVE
  Env e;
  env(e, true);
  Model m;
  std::list<Vec> path;
  Base::Ptr mp(&m, [](Base*) {});
  Astar::ProgressCallback cb = [](const std::list<Vec>&, const SearchStats&) { return vc_b("go on"); };
  if (vc_b("searched before"))
    a.search(e.starts, e.goal, path, mp, cb, (float)vc_r("leave before", 0, 3), (float)vc_r("interval before", 0, 1e-3), false);
#else
  a.open_.c.n_ = vc_i("left", 0, 1L << 40);
  a.open_.c.ver_ = vc_fresh_();
  a.open_.c.dirty_ = true;
  a.parents_.ver_ = vc_fresh_();
  a.parents_.has_ = vc_b("left parent");
  a.parents_.dirty_ = true;
#endif
}
#ifdef VC_PROOF
// contract of findPath (established by the entry find_path): the path ends at e; when it reports success it starts at one of
// the starts and visits no cell twice.  That consecutive cells are moves is proved where the path is extended.
extern "C" bool findpath_contract(const Astar* a, const std::vector<Start>& ss, const Vec& e, std::list<Vec>& path)
{
  vc_prove(!a->parents_.dirty_, "no parent of an earlier search is left when a path is traced");
  vc_prove(path.n_ == 0, "a path is traced into an empty list");
  vc_prove(ss.tag_.kind == T_CELLS, "paths are traced back to the starts kept by the search");
  path.n_ = vc_i("length", 1, 1L << 40);
  path.back_ = e;
  for (int j = 0; j < VC_D; j++)
    path.front_[j] = vc_i("front", -1 << 28, 1 << 28);
  path.seen_ = vc_i("visits", 0, 1L << 40);
  const bool r = vc_b("traced");
  vc_assume(!r | (isStart(path.front_) & (path.seen_ <= 1)));
  return r;
}
typedef std::unordered_map<Vec, Vec, Vec> Parents;
static const std::list<Vec>* gPath;
static Vec gEnd, gSj;
static bool empty_or_next() { return (gPath->n_ == 0) | edge(Parents::got_, gPath->front_); }
static bool empty_or_end() { return ((gPath->n_ == 0) & same(Parents::got_, gEnd)) | ((gPath->n_ > 0) & same(gPath->back_, gEnd)); }
static bool visits() { return (gPath->seen_ == 0) | ((gPath->seen_ == 1) & !same(gSj, gC)); }
static bool gone() { return (gPath->seen_ == 0) | !Parents::copy_->has_; }
static bool unseen() { return (gPath->n_ > 0) | (gPath->seen_ == 0); }
#endif
VC_ENTRY find_path()
{
#ifdef VC_PROOF
  Env e;
  env(e);
  Astar a;
  a.parents_.ver_ = vc_fresh_();
  a.parents_.has_ = vc_b("parent of the tracked cell");
  std::vector<Start> ss;
  ss.n_ = vc_i("starts", 0, 1L << 40);
  std::list<Vec> path;
  const long j = vc_skolem("start", 0, 1L << 40);
  vc_assume(j < (long)ss.n_);
  const Vec sj = ss[j].v_;
  const Vec end = anyVec("end0", "end1", "end2", -1 << 28, 1 << 28);
  gPath = &path;
  gEnd = end;
  gSj = sj;
  Parents::got_ = end;
  vc_hint(empty_or_next);
  vc_hint(empty_or_end);
  vc_hint(visits);
  vc_hint(gone);
  vc_hint(unseen);
  const bool r = a.findPath(ss, end, path);
  vc_prove(path.n_ > 0, "the path is not empty");
  vc_prove(same(path.back_, end), "the path ends at the cell asked for");
  if (!r)
    return;
  vc_prove(isStart(path.front_), "the path starts at a given start");
  if (same(sj, path.front_))
    vc_prove(path.seen_ <= 1, "the path visits no cell twice");
  vc_cover("found");
#endif
}
static void run(const bool at_goal)
{
#ifdef VC_NATIVE
  omp_set_num_threads(1);
#endif
  Env e;
  env(e);
  Astar a(gS);
  any(a);
#ifdef VC_NATIVE
  gE = wrapped(e.goal);
#endif
  Model m;
  std::list<Vec> path;
  const float leave = vc_r("leave", 0, 1e9);
#ifdef VC_PROOF
  if (at_goal)
  {
    const long j = vc_skolem("start", 0, 1L << 40);
    vc_assume((j < (long)e.starts.n_) & same(vc_elem<Start>::make(e.starts.ver_, j).v_, e.goal));
  }
  Base::Ptr mp(&m);
  Astar::ProgressCallback cb;
#else
  Base::Ptr mp(&m, [](Base*) {});
  Astar::ProgressCallback cb = Progress();
  const float lv = leave > 1e8 ? 0.5f : leave > 1 ? 0 : leave;
#define leave lv
#endif
  const bool r = a.search(e.starts, e.goal, path, mp, cb, leave, (float)vc_r("interval", 0, 1e9), vc_b("best"));
  if (e.starts.size() == 0)
    vc_prove(!r, "no start is a failure");
#ifdef VC_PROOF
  if (at_goal)
  {
    vc_prove(!r, "a start equal to the goal is a failure");
    vc_cover("refused");
    return;
  }
#else
  for (const auto& s : e.starts)
    vc_prove(!r || !same(s.v_, e.goal), "a start equal to the goal is a failure");
#endif
  if (!r)
    return;
  const Vec b = path.back(), f = path.front();
  vc_prove(inMap(b), "the path ends inside the map");
#ifdef VC_PROOF
  const double rest = estimOf(b);
  vc_prove(same(b, gE) | (!unreachable(b) & (rest < leave)), "the path ends at the goal or within the accepted remaining cost");
  vc_prove(isStart(f), "the path starts at a given start");
  vc_prove(path.seen_ <= 1, "the path visits no cell twice");
#else
  vc_prove(same(b, gE) | (Model::remain(b) < leave + 1e-3), "the path ends at the goal or within the accepted remaining cost");
  bool st = false;
  for (const auto& s : e.starts)
    st = st || same(wrapped(s.v_), f);
  vc_prove(st, "the path starts at a given start");
  const Vec* q = nullptr;
  for (const Vec& v : path)
  {
    long k = 0;
    for (const Vec& w : path)
      k += same(v, w);
    vc_prove(k == 1, "the path visits no cell twice");
    vc_prove(inMap(v), "the path stays inside the map");
    if (q)
    {
      bool ok = false;
      for (const Vec& d : m.searchGrids(*q, e.starts, gE))
        ok = ok || same(wrapped(*q + d), v);
      const float c = m.cost(*q, v, e.starts, gE);
      vc_prove(ok && c >= 0 && c < FLT_MAX, "consecutive cells of the path are a move of the model with a non-negative finite cost");
    }
    q = &v;
  }
#endif
  vc_cover("found");
#undef leave
}
VC_ENTRY search() { run(false); }
VC_ENTRY start_at_goal() { run(true); }

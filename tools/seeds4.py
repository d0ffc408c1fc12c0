from mkseed import make
GA = "planner_cspace/include/planner_cspace/grid_astar.h"
H = '''#include <cfloat>
#include <cstdio>
#include <list>
#include <memory>
#include <vector>
#include <planner_cspace/grid_astar.h>
using namespace planner_cspace;
typedef GridAstar<3, 2> Astar;
typedef Astar::Vec Vec;
typedef GridAstarModelBase<3, 2> Base;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
'''
make("P04-exceeded", "P04", [(GA, "            if (next.isExceeded(g.size()))\n", "            if (p.isExceeded(g.size()))\n")],
     "a move offered by the model that leaves the map", "the range check looks at the cell that is left instead of the cell that is entered",
     H + '''
struct Model : public Base
{
  std::vector<Vec> d;
  Model() { d.emplace_back(1, 0, 0); d.emplace_back(-1, 0, 0); }
  float cost(const Vec&, const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return 1; }
  float costEstim(const Vec&, const Vec&) const { return 0; }
  const std::vector<Vec>& searchGrids(const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return d; }
};
int main()
{
  Astar a(Vec(4, 4, 1));
  std::list<Vec> path;
  std::vector<Astar::VecWithCost> s;
  s.emplace_back(Vec(1, 1, 0), 0);
  // the goal lies outside the map: nothing may be found, nothing outside the map may be touched
  const bool r = a.search(s, Vec(-1, 1, 0), path, std::make_shared<Model>(), [](const std::list<Vec>&, const SearchStats&) { return true; }, 0, 1e3);
  CHECK(!r);
  return 0;
}
''')
make("P04-negative", "P04", [(GA, "            if (cost < 0 || cost == std::numeric_limits<float>::max())\n              continue;\n\n            const float cost_next = c + cost;\n", "            const float cost_next = c + cost;\n            if (cost_next < 0 || cost == std::numeric_limits<float>::max())\n              continue;\n\n")],
     "a move rejected by the model (negative cost) from a cell already reached at a cost", "rejection of a move is tested on the accumulated cost",
     H + '''
struct Model : public Base
{
  std::vector<Vec> d;
  Model() { d.emplace_back(1, 0, 0); d.emplace_back(-1, 0, 0); }
  float cost(const Vec& p, const Vec& n, const std::vector<VecWithCost>&, const Vec&) const { return p[0] == 3 && n[0] == 4 ? -1 : 1; }
  float costEstim(const Vec& p, const Vec& g) const { return g[0] > p[0] ? g[0] - p[0] : p[0] - g[0]; }
  const std::vector<Vec>& searchGrids(const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return d; }
};
int main()
{
  Astar a(Vec(8, 4, 1));
  std::list<Vec> path;
  std::vector<Astar::VecWithCost> s;
  s.emplace_back(Vec(0, 1, 0), 0);
  auto cb = [](const std::list<Vec>&, const SearchStats&) { return true; };
  CHECK(a.search(s, Vec(3, 1, 0), path, std::make_shared<Model>(), cb, 0, 1e3));
  path.clear();
  CHECK(!a.search(s, Vec(6, 1, 0), path, std::make_shared<Model>(), cb, 0, 1e3));
  return 0;
}
''')
make("P04-stale", "P04", [(GA, "    open_.clear();\n    parents_.clear();\n", "    if (open_.size() > parents_.size())\n      open_.clear();\n    parents_.clear();\n")],
     "a second search starting at a cell the first search left in its queue within its accepted remaining cost",
     "the queue of an earlier search is kept unless it is longer than the list of reached cells", H + '''
struct Model : public Base
{
  std::vector<Vec> d;
  Model() { d.emplace_back(1, 0, 0); d.emplace_back(0, 1, 0); d.emplace_back(-1, 0, 0); d.emplace_back(0, -1, 0); }
  float cost(const Vec&, const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return 1; }
  float costEstim(const Vec& p, const Vec& g) const { return std::abs(g[0] - p[0]) + std::abs(g[1] - p[1]); }
  const std::vector<Vec>& searchGrids(const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return d; }
};
int main()
{
  auto cb = [](const std::list<Vec>&, const SearchStats&) { return true; };
  for (int x = 0; x < 32; x++)
    for (int y = 0; y < 8; y++)
    {
      Astar a(Vec(32, 8, 1));
      std::list<Vec> path;
      std::vector<Astar::VecWithCost> s, t;
      s.emplace_back(Vec(2, 4, 0), 0);
      CHECK(a.search(s, Vec(8, 4, 0), path, std::make_shared<Model>(), cb, 0.5, 1e3));
      path.clear();
      t.emplace_back(Vec(x, y, 0), 0);
      if (x == 31 && y == 4)
        continue;
      if (a.search(t, Vec(31, 4, 0), path, std::make_shared<Model>(), cb, 3.5, 1e3))
      {
        const Vec b = path.back();
        CHECK(std::abs(31 - b[0]) + std::abs(4 - b[1]) < 3.5);
      }
    }
  return 0;
}
''')
make("P04-atgoal", "P04", [(GA, "      if (st.v_ == en)\n        return false;\n", "      if (st.v_ == en && sts.size() == 1)\n        return false;\n")],
     "several start candidates, one of them the goal", "a start equal to the goal is rejected only when it is the only one", H + '''
struct Model : public Base
{
  std::vector<Vec> d;
  Model() { d.emplace_back(1, 0, 0); d.emplace_back(-1, 0, 0); }
  float cost(const Vec&, const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return 1; }
  float costEstim(const Vec& p, const Vec& g) const { return g[0] > p[0] ? g[0] - p[0] : p[0] - g[0]; }
  const std::vector<Vec>& searchGrids(const Vec&, const std::vector<VecWithCost>&, const Vec&) const { return d; }
};
int main()
{
  Astar a(Vec(8, 4, 1));
  std::list<Vec> path;
  std::vector<Astar::VecWithCost> s;
  s.emplace_back(Vec(0, 1, 0), 0);
  s.emplace_back(Vec(3, 1, 0), 0);
  auto cb = [](const std::list<Vec>&, const SearchStats&) { return true; };
  CHECK(!a.search(s, Vec(3, 1, 0), path, std::make_shared<Model>(), cb, 0, 1e3));
  return 0;
}
''')

from mkseed import make
BBF = "planner_cspace/include/planner_cspace/bbf.h"
CB = "planner_cspace/src/costmap_bbf.cpp"
HDR = '''#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <planner_cspace/bbf.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include "planner_cspace/src/costmap_bbf.cpp"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> Vec;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
'''
SH = open("/verif/tools/mkseed.py").read().split('STD = """')[1].split('"""')[0].replace("-Iplanner_cspace/include", "-I. -Iplanner_cspace/include")
make("P06-clamp", "P06", [(BBF, "    else if (odds_ > MAX_ODDS)\n", "    else if (odds > 1.0 && odds_ > MAX_ODDS)\n")],
     "a filter whose initial odds are above the maximum, then evidence against",
     "the upper limit is applied only when the update raises the odds, so odds that start above the limit stay above it", '''#include <cstdio>
#include <planner_cspace/bbf.h>
using namespace planner_cspace::bbf;
int main()
{
  BinaryBayesFilter f(1000.0);
  f.update(0.9);
  if (f.get() > MAX_ODDS || f.getNormalizedProbability() > 1.001) { printf("odds %f\\n", f.get()); return 1; }
  return 0;
}
''')
make("P06-zero", "P06", [(BBF, "    odds_ *= odds;\n    if (odds_ < MIN_ODDS)\n", "    odds_ *= odds;\n    if (odds_ < MIN_ODDS && odds_ > 0)\n")],
     "evidence with odds 0 (an observation that excludes an obstacle)",
     "odds of exactly zero are not raised to the minimum, and the cell can never become occupied again", '''#include <cstdio>
#include <planner_cspace/bbf.h>
using namespace planner_cspace::bbf;
int main()
{
  BinaryBayesFilter f(1.0);
  f.update(0.0);
  if (f.get() < MIN_ODDS) { printf("odds %f\\n", f.get()); return 1; }
  return 0;
}
''')
make("P07-offmap", "P07", [(CB, "      if (static_cast<size_t>(gp[0]) >= width ||\n", "      if (gp[0] >= static_cast<int>(width) ||\n")],
     "a centre close to the left map border, so that the circle reaches negative x",
     "cells left of the map are no longer skipped: the update reads and writes outside the maps", HDR + '''
int main()
{
  CostmapBBFImpl m;
  m.reset(Vec(64, 64, 1));
  BlockMemGridmap<char, 3, 2> cm;
  cm.reset(Vec(64, 64, 1));
  cm.clear(0);
  m.remember(&cm, Vec(40, 2, 0), 2.0, 0.5, 0, 1);
  cm[Vec(40, 1, 0)] = 100;
  for (int i = 0; i < 8; i++)
    m.remember(&cm, Vec(1, 3, 0), 4.0, 0.5, 0, 4);
  m.updateCostmap();
  for (int x = 0; x < 64; x++)
    for (int y = 0; y < 64; y++)
      CHECK(m.getCost(Vec(x, y, 0)) == 0);
  return 0;
}
''', sh=SH)
make("P07-near", "P07", [(CB, "      if (c == 100)\n      {\n        if (r_sq >= range_min_sq)\n        {\n          cm_hist_bbf_[gp].update(remember_hit_odds);\n        }\n      }\n", "      if (c == 100 && r_sq >= range_min_sq)\n      {\n        cm_hist_bbf_[gp].update(remember_hit_odds);\n      }\n")],
     "an obstacle nearer than the minimum range, at a cell where an obstacle was remembered before",
     "an obstacle inside the minimum range is taken as evidence that the cell is free", HDR + '''
int main()
{
  CostmapBBFImpl m;
  m.reset(Vec(64, 64, 1));
  BlockMemGridmap<char, 3, 2> cm;
  cm.reset(Vec(64, 64, 1));
  cm.clear(0);
  cm[Vec(34, 32, 0)] = 100;
  for (int i = 0; i < 8; i++)
    m.remember(&cm, Vec(40, 32, 0), 4.0, 0.5, 3, 8);
  for (int i = 0; i < 8; i++)
    m.remember(&cm, Vec(33, 32, 0), 4.0, 0.5, 3, 8);
  m.updateCostmap();
  CHECK(m.getCost(Vec(34, 32, 0)) == 100);
  return 0;
}
''', sh=SH)
make("P08-forget", "P08", [(CB, "      std::max(updated_max_[1], std::min(size_[1] - 1, center[1] + range_max)));\n", "      std::min(size_[1] - 1, center[1] + range_max));\n")],
     "two remember calls without a refresh in between, the second one at a smaller y",
     "the area still to be refreshed shrinks: cells updated by the first call keep their old cost after the refresh", HDR + '''
int main()
{
  CostmapBBFImpl m;
  m.reset(Vec(64, 64, 1));
  m.updateCostmap();
  BlockMemGridmap<char, 3, 2> cm;
  cm.reset(Vec(64, 64, 1));
  cm.clear(0);
  cm[Vec(50, 50, 0)] = 100;
  for (int i = 0; i < 8; i++)
    m.remember(&cm, Vec(50, 50, 0), 4.0, 0.5, 0, 4);
  m.remember(&cm, Vec(10, 10, 0), 4.0, 0.5, 0, 4);
  m.updateCostmap();
  CHECK(m.getCost(Vec(50, 50, 0)) == 100);
  return 0;
}
''', sh=SH)
make("P08-area", "P08", [("planner_cspace/include/planner_cspace/planner_3d/costmap_bbf.h", "    updated_max_ = VecInternal(size_[0] - 1, size_[1] - 1);\n", "    updated_max_ = VecInternal(size_[0], size_[1]);\n")],
     "the first refresh after a reset or clear",
     "the area to refresh reaches one row and one column over the border of the map", HDR + '''
int main()
{
  for (int n = 120; n < 140; n++)
  {
    CostmapBBFImpl m;
    m.reset(Vec(n, n, 1));
    m.updateCostmap();
  }
  return 0;
}
''', sh=SH)

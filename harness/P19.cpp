// Footprint templates and 3-D costmap messages: cells addressed by offsets.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <vc.h>
#include <vcstl.h>
#include <costmap_cspace/cspace3_cache.h>
#include <costmap_cspace/costmap_3d_layer/base.h>
using namespace costmap_cspace;
struct Cell { int x, y, a; };
static bool same(const Cell& p, const Cell& q) { return (p.x == q.x) & (p.y == q.y) & (p.a == q.a); }
static long fit(long v, long n) { return vc_native() && n > 0 ? v % n : v; }
// a template of any size, resized once before
static void sized(CSpace3Cache& c, long& x, long& y, long& n)
{
  if (vc_b("resized"))
  {
    const long ox = vc_sz("ox", 0, 1000), oy = vc_sz("oy", 0, 1000), on = vc_sz("on", 1, 256);
    c.reset(ox, oy, on);
    c.e(0, 0, 0) = 17;
  }
  x = vc_sz("x", 0, 1000), y = vc_sz("y", 0, 1000), n = vc_sz("n", 1, 256);
  c.reset(x, y, n);
}
static Cell cell(const char* nx, const char* ny, const char* na, long x, long y, long n)
{
  Cell p;
  p.x = fit(vc_i(nx, 0, 2000), 2 * x + 1) - x;
  p.y = fit(vc_i(ny, 0, 2000), 2 * y + 1) - y;
  p.a = fit(vc_i(na, 0, 255), n);
  vc_assume((p.x <= x) & (p.y <= y) & (p.a < n));
  return p;
}
VC_ENTRY template_size()
{
  CSpace3Cache c;
  long x, y, n;
  sized(c, x, y, n);
  int s[3], m[3];
  c.getSize(s[0], s[1], s[2]);
  c.getCenter(m[0], m[1], m[2]);
  vc_prove((s[0] == 2 * x + 1) & (s[1] == 2 * y + 1) & (s[2] == n), "the template reports its size");
  vc_prove((m[0] == x) & (m[1] == y) & (m[2] == 0), "the template reports its centre");
  const Cell p = cell("px", "py", "pa", x, y, n);
  vc_prove(c.e(p.x, p.y, p.a) == 0, "a freshly sized template is all zero");
  const CSpace3Cache& k = c;
  vc_prove(&k.e(p.x, p.y, p.a) == &c.e(p.x, p.y, p.a), "reading and writing address the same element");
  vc_cover("sized");
}
VC_ENTRY template_cells()
{
  CSpace3Cache c;
  long x, y, n;
  sized(c, x, y, n);
  const Cell p = cell("px", "py", "pa", x, y, n), q = cell("qx", "qy", "qa", x, y, n);
  const char v = vc_i("v", -128, 127), w = vc_i("w", -128, 127);
  c.e(p.x, p.y, p.a) = v;
  if (same(p, q))
    return;
  c.e(q.x, q.y, q.a) = w;
  vc_prove(c.e(p.x, p.y, p.a) == v, "writing a cell leaves every other cell unchanged");
  vc_prove(c.e(q.x, q.y, q.a) == w, "a cell holds the value written to it");
  vc_cover("isolated");
}
VC_ENTRY message_cells()
{
  CSpace3DMsg m;
  const long x = vc_sz("x", 1, 4096), y = vc_sz("y", 1, 4096), n = vc_sz("n", 1, 64);
  m.info.width = x;
  m.info.height = y;
  m.info.angle = n;
  m.data.resize(x * y * n);
  Cell p, q;
  p.x = fit(vc_i("px", 0, 4095), x), p.y = fit(vc_i("py", 0, 4095), y), p.a = fit(vc_i("pa", 0, 63), n);
  q.x = fit(vc_i("qx", 0, 4095), x), q.y = fit(vc_i("qy", 0, 4095), y), q.a = fit(vc_i("qa", 0, 63), n);
  vc_assume((p.x < x) & (p.y < y) & (p.a < n) & (q.x < x) & (q.y < y) & (q.a < n));
  const int8_t v = vc_i("v", -128, 127), w = vc_i("w", -128, 127);
  vc_prove(m.address(p.x, p.y, p.a) < m.data.size(), "every cell lies inside the message");
  m.getCost(p.x, p.y, p.a) = v;
  const CSpace3DMsg& k = m;
  vc_prove(k.getCost(p.x, p.y, p.a) == v, "a cell holds the value written to it");
  if (same(p, q))
    return;
  m.getCost(q.x, q.y, q.a) = w;
  vc_prove(m.getCost(p.x, p.y, p.a) == v, "writing a cell leaves every other cell unchanged");
  vc_prove(m.getCost(q.x, q.y, q.a) == w, "a cell holds the value written to it");
  vc_cover("isolated");
}

// Footprint polygons.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <vc.h>
#include <vcstl.h>
#include <geometry_msgs/PolygonStamped.h>
#include <costmap_cspace/polygon.h>
using namespace costmap_cspace;
static const double B = 100;
static long count;
// a polygon of arbitrarily many vertices, closed or not
static void outline(Polygon& p, long least)
{
  count = vc_sz("vertices", least, 1 << 20);
#ifdef VC_PROOF
  p.v.n_ = count;
  vc_arr_r_(&p.v.p_[0].c[0], count, sizeof(Vec), 104, "x", -B, B);
  vc_arr_r_(&p.v.p_[0].c[1], count, sizeof(Vec), 104, "y", -B, B);
#else
  for (long i = 0; i < count; i++)
  {
    Vec a;
    a[0] = vc_r("x", -2, 2);
    a[1] = (int)vc_r("y", -2, 2);
    p.v.push_back(a);
  }
#endif
  vc_ghost_i("vertices", count);
}
static long vertex(const char* name)
{
  long k = vc_skolem(name, 0, (1 << 20) - 1);
  if (vc_native())
    k %= count;
  vc_assume(k < count);
  return k;
}
VC_ENTRY radius_covers()
{
  Polygon p;
  outline(p, 1);
  const long k = vertex("k");
  vc_ghost_r("covered", std::hypot(p.v[k].c[0], p.v[k].c[1]));
  vc_ghost_r("covered2", p.v[k].c[0] * p.v[k].c[0] + p.v[k].c[1] * p.v[k].c[1]);
  const float r = p.radius();
  vc_let(std::hypot(p.v[k].c[0], p.v[k].c[1]), r, 1e-4, "the footprint radius covers every vertex");
  vc_cover("covered");
}
VC_ENTRY radius_attained()
{
  // whatever bounds every vertex bounds the radius
  Polygon p;
  outline(p, 1);
  const double R = vc_r("bound", 0, 1000);
#ifndef VC_PROOF
  double most = 0;
  for (auto& a : p.v)
    most = std::max(most, (double)std::hypot(a.c[0], a.c[1]));
  vc_prove(p.radius() <= most + 1e-6, "the footprint radius is attained by a vertex");
#else
  vc_ghost_r("bound", R);
  vc_prove(p.radius() <= R, "the footprint radius is attained by a vertex");
#endif
  vc_cover("attained");
}
VC_ENTRY moving()
{
  Polygon p;
  outline(p, 1);
  const long i = vertex("i");
  const float x = (float)vc_r("dx", -B, B), y = (float)vc_r("dy", -B, B), a = (float)vc_r("yaw", -10, 10);
  const float x0 = p.v[i].c[0], y0 = p.v[i].c[1];
  const float c = cosf(a), s = sinf(a);
  vc_fill<float>(p.v[i].c[0], c * x0 - s * y0 + x, true, i, 0, 0);
  vc_fill<float>(p.v[i].c[1], s * x0 + c * y0 + y, true, i, 0, 0);
  p.move(x, y, a);
  vc_prove(p.v.size() == (size_t)count, "moving keeps the vertices");
  vc_eqt(p.v[i].c[0], c * x0 - s * y0 + x, 1e-3, "a moved vertex is rotated and shifted");
  vc_eqt(p.v[i].c[1], s * x0 + c * y0 + y, 1e-3, "a moved vertex is rotated and shifted (y)");
  vc_cover("moved");
}
VC_ENTRY rigid()
{
  // a rotation and shift preserves distances
  const double x0 = vc_r("x0", -B, B), y0 = vc_r("y0", -B, B), x1 = vc_r("x1", -B, B), y1 = vc_r("y1", -B, B);
  const double c = vc_r("cos", -1, 1), s = vc_native() ? std::sqrt(1 - c * c) : vc_r("sin", -1, 1), x = vc_r("dx", -B, B), y = vc_r("dy", -B, B);
  if (!vc_native())
    vc_assume(c * c + s * s == 1);
  const double u = (c * x0 - s * y0 + x) - (c * x1 - s * y1 + x), v = (s * x0 + c * y0 + y) - (s * x1 + c * y1 + y);
  vc_eqt(u * u + v * v, (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0), 1e-6, "moving preserves the distance of every two vertices");
  vc_cover("rigid");
}
VC_ENTRY inside()
{
  Polygon p;
  outline(p, 1);
  Vec a;
  a[0] = (float)vc_r("ax", -B, B);
  a[1] = (float)vc_r("ay", -B, B);
  if (vc_native())
  {
    a[0] = std::fmod(a[0], 2);
    a[1] = (int)std::fmod(a[1], 3);
    bool odd = false;
    for (long i = 0; i + 1 < count; i++)
    {
      const double ux = p.v[i][0], uy = p.v[i][1], wx = p.v[i + 1][0], wy = p.v[i + 1][1];
      if ((uy <= a[1]) == (wy <= a[1]))
        continue;
      const double t = (wx - ux) * (a[1] - uy) - (a[0] - ux) * (wy - uy);
      if (std::abs(t) < 1e-4)
        return;
      if (wy > uy ? t > 0 : t < 0)
        odd = !odd;
    }
    vc_prove(p.inside(a) == odd, "inside exactly when a ray crosses the outline an odd number of times");
  }
  else
  {
    vc_ghost_r("ax", a[0]);
    vc_ghost_r("ay", a[1]);
    const bool in = p.inside(a);
    vc_prove(in == (vc_uf_i_("odd", 0, 1, count - 1, 0, 0, 0, 0, 0) == 1), "inside exactly when a ray crosses the outline an odd number of times");
  }
  vc_cover("inside");
}
VC_ENTRY outline_distance()
{
  Polygon p;
  outline(p, 2);
  const long k = vertex("k");
  vc_assume(k + 1 < count);
  Vec a;
  a[0] = (float)vc_r("ax", -B, B);
  a[1] = (float)vc_r("ay", -B, B);
  const float e = a.dist_linestrip(p.v[k], p.v[k + 1]);
  vc_ghost_r("covered", e);
  const float d = p.dist(a);
  vc_prove(d <= e, "the distance to the outline is not larger than to any edge");
  vc_cover("near");
}
VC_ENTRY edge_distance()
{
  Vec a, b, c;
  const float k = vc_native() ? 0.02f : 1;   // the statement does not depend on the scale
  a[0] = k * (float)vc_r("ax", -B, B);
  a[1] = k * (float)vc_r("ay", -B, B);
  b[0] = k * (float)vc_r("bx", -B, B);
  b[1] = k * (float)vc_r("by", -B, B);
  c[0] = k * (float)vc_r("cx", -B, B);
  c[1] = k * (float)vc_r("cy", -B, B);
  const double t = vc_r("t", 0, 1), px = a[0] + t * (b[0] - a[0]), py = a[1] + t * (b[1] - a[1]);
  vc_assume((b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]) >= 0.01f);
  const double d = c.dist_linestrip(a, b);
  vc_prove(d >= 0, "the distance to an edge is never negative");
  vc_let(d * d, (px - c[0]) * (px - c[0]) + (py - c[1]) * (py - c[1]), 1e-3, "no point of an edge is nearer than its distance");
  // and the distance is attained: at an end or at the foot of the perpendicular
  const double ux = b[0] - a[0], uy = b[1] - a[1], wx = c[0] - a[0], wy = c[1] - a[1], l2 = ux * ux + uy * uy, u = ux * wx + uy * wy, x = ux * wy - uy * wx;
  if (u <= 0)
    vc_eqt(d * d, wx * wx + wy * wy, 1e-3, "behind its start the distance to an edge is the one to the start");
  else if (u >= l2)
    vc_eqt(d * d, (c[0] - b[0]) * (c[0] - b[0]) + (c[1] - b[1]) * (c[1] - b[1]), 1e-3, "beyond its end the distance to an edge is the one to the end");
  else
    vc_eqt(d * d * l2, x * x, 1e-3 * (1 + l2), "beside an edge the distance is the perpendicular");
  vc_cover("edge");
}

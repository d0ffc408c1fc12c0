// Distances to lines and segments.
#include <cmath>
#include <functional>
#include <memory>
#include <utility>
#include <planner_cspace/cyclic_vec.h>
#include <trajectory_tracker/eigen_line.h>
#include <vc.h>
using namespace trajectory_tracker;
typedef Eigen::Vector2d V;
static const double B = 100, TOL = 1e-3;
static V pt(const char* nx, const char* ny) { const double x = vc_r(nx, -B, B), y = vc_r(ny, -B, B); return V(x, y); }
static double dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1]; }
static double crs(const V& a, const V& b) { return a[0] * b[1] - a[1] * b[0]; }
static double dist2(const V& a, const V& b) { const double x = a[0] - b[0], y = a[1] - b[1]; return x * x + y * y; }
struct In { V a, b, c; };
static In input(double minlen)
{
  In i;
  i.a = pt("ax", "ay");
  i.b = pt("bx", "by");
  i.c = pt("cx", "cy");
  if (minlen > 0)
    vc_assume(dist2(i.a, i.b) >= minlen * minlen);
  return i;
}
VC_ENTRY segment_distance()
{
  const In i = input(0);
  const double d = lineStripDistance(i.a, i.b, i.c), s = lineStripDistanceSigned(i.a, i.b, i.c);
  vc_prove(d >= 0, "distance to a segment is never negative");
  vc_eqt(d, std::fabs(s), 1e-6, "the distance is the magnitude of the signed distance");
  vc_let(d * d, dist2(i.a, i.c), TOL * B, "distance not larger than to the start");
  vc_let(d * d, dist2(i.b, i.c), TOL * B, "distance not larger than to the end");
  // signed: behind the start
  V ab, ac;
  ab[0] = i.b[0] - i.a[0], ab[1] = i.b[1] - i.a[1];
  ac[0] = i.c[0] - i.a[0], ac[1] = i.c[1] - i.a[1];
  if (dot(ab, ac) < -1e-6)
    vc_prove(s < 0, "the signed distance is negative behind the start");
  if (dot(ab, ac) > 1e-6)
    vc_prove(s >= 0, "the signed distance is not negative ahead of the start");
  vc_cover("end");
}
VC_ENTRY segment_nearest()
{
  // no point of the segment is nearer
  const In i = input(0.01);
  const double t = vc_r("t", 0, 1);
  V p;
  p[0] = i.a[0] + t * (i.b[0] - i.a[0]);
  p[1] = i.a[1] + t * (i.b[1] - i.a[1]);
  const double d = lineStripDistance(i.a, i.b, i.c);
  vc_let(d * d, dist2(p, i.c), TOL * B, "no point of the segment is nearer");
  vc_cover("end");
}
VC_ENTRY segment_attained()
{
  // the distance is attained: at the start, the end, or the foot of the perpendicular
  const In i = input(0.01);
  const double d = lineStripDistance(i.a, i.b, i.c);
  const double l2 = dist2(i.a, i.b);
  V ab, ac;
  ab[0] = i.b[0] - i.a[0], ab[1] = i.b[1] - i.a[1];
  ac[0] = i.c[0] - i.a[0], ac[1] = i.c[1] - i.a[1];
  const double u = dot(ab, ac);
  if (u <= 0)
    vc_eqt(d * d, dist2(i.a, i.c), TOL * B, "behind the start the distance is the one to the start");
  else if (u >= l2)
    vc_eqt(d * d, dist2(i.b, i.c), TOL * B, "beyond the end the distance is the one to the end");
  else
    vc_eqt(d * d * l2, crs(ab, ac) * crs(ab, ac), TOL * B * (1 + l2), "beside the segment the distance is the perpendicular");
  vc_cover("end");
}
VC_ENTRY segment_reversed()
{
  const In i = input(0.01);
  const double d = lineStripDistance(i.a, i.b, i.c), e = lineStripDistance(i.b, i.a, i.c);
  vc_eqt(d * d, e * e, TOL * B, "the distance does not depend on the direction of the segment");
  vc_cover("end");
}
VC_ENTRY line_distance()
{
  const In i = input(0.01);
  const double d = lineDistance(i.a, i.b, i.c);
  V ab, ac;
  ab[0] = i.b[0] - i.a[0], ab[1] = i.b[1] - i.a[1];
  ac[0] = i.c[0] - i.a[0], ac[1] = i.c[1] - i.a[1];
  const double k = crs(ab, ac), l2 = dist2(i.a, i.b);
  vc_prove(k > 1e-6 ? d >= 0 : k < -1e-6 ? d <= 0 : true, "points on the left of a line have positive distance");
  vc_eqt(d * d * l2, k * k, TOL * B * (1 + l2), "distance to the line is the height of the triangle");
  vc_eqt(cross2(ab, ac), k, TOL * B, "cross product");
  vc_cover("end");
}
VC_ENTRY foot()
{
  const In i = input(0.01);
  const V p = projection2d(i.a, i.b, i.c);
  V ab, ap, pc;
  ab[0] = i.b[0] - i.a[0], ab[1] = i.b[1] - i.a[1];
  ap[0] = p[0] - i.a[0], ap[1] = p[1] - i.a[1];
  pc[0] = i.c[0] - p[0], pc[1] = i.c[1] - p[1];
  const double s = TOL * (1 + dist2(i.a, i.b)) * (1 + dist2(i.a, i.c)) * 1e-2;
  vc_eqt(crs(ab, ap), 0, s, "the foot of the perpendicular lies on the line");
  vc_eqt(dot(ab, pc), 0, s, "the connecting vector is orthogonal to the line");
  vc_cover("end");
}
VC_ENTRY curvature()
{
  // three points of a circle of radius r around (ox, oy): the curvature is 1/r, its sign tells the turning direction
  const In i = input(0.05);
  vc_assume(dist2(i.b, i.c) >= 0.01);
  vc_assume(dist2(i.a, i.c) >= 0.01);
  const double k = curv3p(i.a, i.b, i.c);
  const double area2 = (i.b[0] - i.a[0]) * (i.c[1] - i.a[1]) - (i.b[1] - i.a[1]) * (i.c[0] - i.a[0]);
  const double q = dist2(i.a, i.b) * dist2(i.b, i.c) * dist2(i.c, i.a);
  vc_prove(area2 > 1e-4 ? k >= 0 : area2 < -1e-4 ? k <= 0 : true, "curvature is positive for a left turn");
  vc_eqt(k * k * q, 4 * area2 * area2, TOL * (1 + q), "curvature is the reciprocal radius of the circle through the points");
  vc_cover("end");
}
// the same on grid positions (position and orientation; the orientation does not count)
template <class C, class T>
static void grid(long lim)
{
  C a, b, c;
  for (int i = 0; i < 3; i++)
  {
    a[i] = (T)vc_i("a", -lim, lim);
    b[i] = (T)vc_i("b", -lim, lim);
    c[i] = (T)vc_i("c", -lim, lim);
  }
  const double x1 = b[0] - a[0], y1 = b[1] - a[1], x2 = c[0] - a[0], y2 = c[1] - a[1], x3 = c[0] - b[0], y3 = c[1] - b[1];
  const double l2 = x1 * x1 + y1 * y1, u = x1 * x2 + y1 * y2, k = x1 * y2 - y1 * x2;
  vc_assume(l2 > 0);
  const double d = c.distLinestrip2d(a, b), h = c.distLine2d(a, b);
  const double tol = 1e-3 * (1 + lim * lim);
  vc_prove(d >= 0, "grid: distance to a segment is never negative");
  if (u <= 0)
    vc_eqt(d * d, x2 * x2 + y2 * y2, tol, "grid: behind the start the distance is the one to the start");
  else if (u >= l2)
    vc_eqt(d * d, x3 * x3 + y3 * y3, tol, "grid: beyond the end the distance is the one to the end");
  else
    vc_eqt(d * d * l2, k * k, tol * (1 + l2), "grid: beside the segment the distance is the perpendicular");
  vc_eqt(h * h * l2, k * k, tol * (1 + l2), "grid: distance to the line is the height of the triangle");
  vc_prove(k > 0 ? h >= 0 : k < 0 ? h <= 0 : h == 0, "grid: points on the left of a line have positive distance");
  vc_cover("end");
}
VC_ENTRY grid_int() { grid<planner_cspace::CyclicVecInt<3, 2>, int>(1000); }
VC_ENTRY grid_float() { grid<planner_cspace::CyclicVecFloat<3, 2>, float>(1000); }

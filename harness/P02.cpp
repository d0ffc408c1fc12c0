// Bulk operations of the grid map are exact for every region and touch nothing else.
#include <cmath>
#include <cstring>
#include <functional>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <vc.h>
using namespace planner_cspace;
typedef CyclicVecInt<3, 2> Vec;
static const long DMAX = 1 << 12, AMAX = 1 << 8;

static Vec anySize(const char* a, const char* b, const char* c)
{
  Vec s;
  s[0] = vc_sz(a, 1, DMAX);
  s[1] = vc_sz(b, 1, DMAX);
  s[2] = vc_sz(c, 1, AMAX);
  return s;
}
static Vec anyCell(const Vec& s, const char* a, const char* b, const char* c)
{
  Vec p;
  p[0] = vc_i(a, 0, s[0] - 1);
  p[1] = vc_i(b, 0, s[1] - 1);
  p[2] = vc_i(c, 0, s[2] - 1);
  return p;
}
static bool inBox(const Vec& q, const Vec& a, const Vec& b)
{
  return (a[0] <= q[0]) & (q[0] <= b[0]) & (a[1] <= q[1]) & (q[1] <= b[1]) & (a[2] <= q[2]) & (q[2] <= b[2]);
}
VC_ENTRY clear_partially()
{
  BlockMemGridmap<char, 3, 2> gm;
  const Vec s = anySize("s0", "s1", "s2");
  gm.reset(s);
  vc_map<char>(gm, s, 3, "cm", -1, 100);
  const Vec a = anyCell(s, "a0", "a1", "a2"), b = anyCell(s, "b0", "b1", "b2"), q = anyCell(s, "q0", "q1", "q2");
  const char v = vc_i("v", -1, 100), old = gm[q];
  const bool in = inBox(q, a, b);
  vc_fill<char>(gm[q], v, in, q[0], q[1], q[2]);
  gm.clear_partially(v, a, b);
  vc_prove(gm[q] == (in ? v : old), "clearing a region sets exactly the cells of the region");
  vc_cover("end");
}
VC_ENTRY copy_partially_same()
{
  BlockMemGridmap<char, 3, 2> gm, src;
  const Vec s = anySize("s0", "s1", "s2"), t = anySize("t0", "t1", "t2");
  gm.reset(s);
  src.reset(t);
  vc_map<char>(gm, s, 3, "cm", -1, 100);
  vc_map<char>(src, t, 3, "src", -1, 100);
  const Vec a = anyCell(s, "a0", "a1", "a2"), b = anyCell(s, "b0", "b1", "b2"), q = anyCell(s, "q0", "q1", "q2");
  vc_assume(a.operator[](0) >= 0);
  vc_assume((b[0] < t[0]) & (b[1] < t[1]) & (b[2] < t[2]));
  const char old = gm[q];
  const bool in = inBox(q, a, b);
  char nv = old;
  if (in)
    nv = src[q];
  vc_fill<char>(gm[q], nv, in, q[0], q[1], q[2]);
  gm.copy_partially(src, a, b);
  vc_prove(gm[q] == (in ? nv : old), "copying a region copies exactly the cells of the region");
  if (in)
    vc_prove(src[q] == nv, "the source of a copy is unchanged");
  vc_cover("end");
}
VC_ENTRY copy_partially_shift()
{
  BlockMemGridmap<char, 3, 2> gm, src;
  const Vec s = anySize("s0", "s1", "s2"), t = anySize("t0", "t1", "t2");
  gm.reset(s);
  src.reset(t);
  vc_map<char>(gm, s, 3, "cm", -1, 100);
  vc_map<char>(src, t, 3, "src", -1, 100);
  const Vec a = anyCell(t, "a0", "a1", "a2"), b = anyCell(t, "b0", "b1", "b2"), q = anyCell(s, "q0", "q1", "q2");
  const Vec d = anyCell(s, "d0", "d1", "d2");
  vc_assume((d[0] + b[0] - a[0] < s[0]) & (d[1] + b[1] - a[1] < s[1]) & (d[2] + b[2] - a[2] < s[2]));
  const Vec qs = q - (d - a);
  const char old = gm[q];
  const bool in = inBox(qs, a, b);
  char nv = old;
  if (in)
    nv = src[qs];
  vc_fill<char>(gm[q], nv, in, qs[0], qs[1], qs[2]);
  gm.copy_partially(d, src, a, b);
  vc_prove(gm[q] == (in ? nv : old), "copying a region elsewhere copies exactly the cells of the region");
  vc_cover("end");
}
// the remaining bulk operations, on the storage itself
#ifdef RAW
static long addrOf(const BlockMemGridmap<char, 3, 2>& gm, const Vec& p)
{
  size_t b, a;
  gm.block_addr(p, b, a);
  return b * gm.block_ser_size_ + a;
}
VC_ENTRY clear_all()
{
  BlockMemGridmap<char, 3, 2> gm;
  const Vec s = anySize("s0", "s1", "s2");
  gm.reset(s);
  const Vec q = anyCell(s, "q0", "q1", "q2");
  const char v = vc_i("v", -128, 127), old = vc_i("old", -128, 127);
  gm[q] = old;
  vc_fill<char>(gm[q], v, true, addrOf(gm, q), 0, 0);
  gm.clear(v);
  vc_prove(gm[q] == v, "clearing the map sets every cell");
  vc_prove((gm.size()[0] == s[0]) & (gm.size()[1] == s[1]) & (gm.size()[2] == s[2]), "clearing keeps the size");
  vc_cover("end");
}
VC_ENTRY clear_all_float()
{
  BlockMemGridmap<float, 2, 2, 0x20, true> gm;
  CyclicVecInt<2, 2> s, q;
  s[0] = vc_sz("s0", 1, DMAX);
  s[1] = vc_sz("s1", 1, DMAX);
  gm.reset(s);
  q[0] = vc_i("q0", 0, s[0] - 1);
  q[1] = vc_i("q1", 0, s[1] - 1);
  const float v = vc_r("v", -1e9, 1e9), old = vc_r("old", -1e9, 1e9);
  gm[q] = old;
  size_t b, a;
  gm.block_addr(q, b, a);
  vc_fill<float>(gm[q], v, true, b * gm.block_ser_size_ + a, 0, 0);
  gm.clear(v);
  vc_prove(gm[q] == v, "clearing the map sets every cell (2-D)");
  vc_cover("end");
}
VC_ENTRY clear_positive_all()
{
  BlockMemGridmap<char, 3, 2> gm;
  const Vec s = anySize("s0", "s1", "s2");
  gm.reset(s);
  const Vec q = anyCell(s, "q0", "q1", "q2");
  const char v = vc_i("v", -128, 127), old = vc_i("old", -128, 127);
  gm.clear(vc_i("before", -128, 127));
  gm[q] = old;
  const char nv = old >= 0 ? v : old;
  vc_fill<char>(gm[q], nv, true, addrOf(gm, q), 0, 0);
  gm.clear_positive(v);
  vc_prove(gm[q] == nv, "clearing the known cells sets exactly the cells that are not negative");
  vc_cover("end");
}
template <class T> static T val(const char* n) { return vc_kind<T>::v > 100 ? (T)vc_r(n, -1e9, 1e9) : (T)vc_i(n, -128, 127); }
template <class T, int W>
static void assignMap()
{
  BlockMemGridmap<T, 3, 2, W> gm, src;
  const Vec t = anySize("t0", "t1", "t2"), s = anySize("s0", "s1", "s2");
  gm.reset(t);
  src.reset(s);
  const Vec q = anyCell(s, "q0", "q1", "q2");
  const T v = val<T>("v");
  src.clear(val<T>("before"));
  src[q] = v;
  gm = src;
  vc_prove((gm.size()[0] == s[0]) & (gm.size()[1] == s[1]) & (gm.size()[2] == s[2]), "an assigned map has the size of its source");
  vc_prove(gm[q] == v, "an assigned map has the cells of its source");
  vc_prove(src[q] == v, "the source of an assignment keeps its cells");
  const T w = val<T>("w");
  gm[q] = w;
  vc_prove(src[q] == v, "an assigned map does not share storage with its source");
  vc_cover("end");
}
VC_ENTRY assign_char() { assignMap<char, 0x20>(); }
VC_ENTRY assign_float() { assignMap<float, 0x8>(); }
#endif
